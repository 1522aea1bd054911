------------------------------- MODULE MCOps -------------------------------
(* Self-test: the Java replacements agree with the definitions in the modules.  PureX are copies of the      *)
(* definitions under names that TLC does not replace (generated from the modules by bin/purecopy.py).        *)
EXTENDS FieldOps, PolyOps, GroupOps, PureOps, TLC, FiniteSets

CONSTANT Primes, MaxLen
Elems(p) == 0 .. p - 1
Polys(p) == {f \in UNION {[1 .. n -> Elems(p)] : n \in 0 .. MaxLen} : f = <<>> \/ f[Len(f)] # 0}
Vecs(p) == UNION {[1 .. n -> Elems(p)] : n \in 0 .. MaxLen}

VARIABLES p, a, b, stage
Init == /\ p \in Primes /\ a \in Elems(p) /\ b \in Elems(p) /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED <<p, a, b>>

FieldAgrees ==
  /\ FAdd(p, a, b) = PureFAdd(p, a, b) /\ FSub(p, a, b) = PureFSub(p, a, b) /\ FMul(p, a, b) = PureFMul(p, a, b)
  /\ FNeg(p, a) = PureFNeg(p, a) /\ FInv(p, a) = PureFInv(p, a) /\ FPow(p, a, b) = PureFPow(p, a, b)
  /\ FE(p, a + 3 * b) = PureFE(p, a + 3 * b) /\ FIsElem(p, a) = PureFIsElem(p, a) /\ FIsElem(p, p) = PureFIsElem(p, p)
  /\ FLow64Mod(p, a, b + 1) = PureFLow64Mod(p, a, b + 1)
PolyAgrees ==
  /\ \A f \in Vecs(p) :
       /\ PTrim(p, f) = PurePTrim(p, f) /\ PEval(p, f, a) = PurePEval(p, f, a)
       /\ PScale(p, a, f) = PurePScale(p, a, f) /\ PFold(p, f, a) = PurePFold(p, f, a)
       /\ PQuotient(p, f, a) = PurePQuotient(p, f, a)
       /\ \A n \in 1 .. 3 : PDivVanish(p, f, n) = PurePDivVanish(p, f, n)
       /\ PEvalCoset(p, f, a, b, 3) = PurePEvalCoset(p, f, a, b, 3)
       /\ PEvalCoset(p, f, a, p - 1, 2) = PurePEvalCoset(p, f, a, p - 1, 2)
       /\ (Len(f) = 2 /\ p > 2) => PInterp(p, f, p - 1) = PurePInterp(p, f, p - 1)
       /\ GMsm(p, f, f) = PureGMsm(p, f, f)
PolyPairsAgree ==
  (a = 0 /\ b = 0) => \A f \in Polys(p), g \in Polys(p) : PAdd(p, f, g) = PurePAdd(p, f, g) /\ PMul(p, f, g) = PurePMul(p, f, g)

(* Algebra that the rest of the specification relies on. *)
QuotientIsExact ==
  \A f \in Polys(p) : PSub(p, f, PTrim(p, <<PEval(p, f, a)>>)) = PMul(p, PQuotient(p, f, a), PTrim(p, <<FNeg(p, a), 1>>))
=============================================================================
