----------------------------- MODULE TracePlonk -----------------------------
(* Recorded circuits, proofs and verdicts of the real code against Plonk.  The setup's secret is known here.  *)
(* Challenges are what the code's transcript answers to the questions of the specification.                  *)
EXTENDS Plonk, TraceBase
VARIABLES sc, l,
          stmts,   \* compiled circuits: [st, coms, sat, perm]
          proofs,  \* what provers returned: [c, hash, pf] (pf of refused ones is empty)
          masks    \* mask components seen so far
tvars == <<sc, l, stmts, proofs, masks, pvars>>

S == Trace[sc]
E == S.events[l]
Ok(res) == Has(res, "ok")
TraceInit ==
  /\ sc \in 1 .. Len(Trace) /\ l = 1 /\ stmts = <<>> /\ proofs = <<>> /\ masks = {}
  /\ secret = (IF Has(Trace[sc], "secret") THEN Trace[sc].secret ELSE F0)
  /\ gates = <<>> /\ st = <<>> /\ step = "build" /\ pr = <<>> /\ pf = <<>> /\ ch = <<>>
Is(op) == l <= Len(S.events) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED sc
Chk(prop, what, ok) == Expect(prop, S.id, l, what, ok)
ChkIs(prop, what, got, want) == ExpectIs(prop, S.id, l, what, got, want)
Chks(props, what, ok) == \A p \in props : Chk(p, what, ok)

TGate == Is("gate") /\ AddGate(E.g) /\ UNCHANGED <<stmts, proofs, masks>>
TNew == Is("new") /\ gates' = <<>> /\ step' = "build" /\ UNCHANGED <<secret, st, pr, pf, ch, stmts, proofs, masks>>

(* Padding rows, as the code names them, are rows of zeros. *)
FitShape(c) == IsPow2(c.n) /\ c.n >= Len(gates) /\ PrimitiveRoot(c.w, c.n) /\ CosetsDisjoint(c.k1, c.k2, c.n) /\ WellFormed(gates, c.n)
TCompile ==
  /\ Is("compile")
  /\ LET c == E.res.ok IN
     IF Ok(E.res) /\ FitShape(c)
     THEN /\ Compile(c.n, c.w, c.k1, c.k2)
          /\ LET t == Table(gates, c.n, c.w, c.k1, c.k2)
                 coms == StatementComs(st', secret) IN
             /\ \A x \in Cols : ChkIs("P05", "column " \o x, PEvalCoset(P, c.f[x], F1, c.w, c.n), t[x])
             /\ Chk("P05", "columns are of low degree", \A x \in Cols : Len(PTrim(P, c.f[x])) <= c.n)
             /\ stmts' = Append(stmts, [st |-> st', coms |-> coms, sat |-> Satisfied(gates, c.n), perm |-> IsPermutation(gates, c.n), lost |-> FALSE])
     ELSE /\ Chks({"P01", "P03", "P05"}, "a circuit compiles to a domain that holds it, on disjoint cosets", FALSE)
          \* what it says is known all the same
          /\ LET n == Pow2AtLeast(Len(gates)) IN
               stmts' = Append(stmts, [lost |-> TRUE, sat |-> ~ WellFormed(gates, n) \/ Satisfied(gates, n)])
          /\ step' = "compiled" /\ UNCHANGED <<secret, gates, st, pr, pf, ch>>
  /\ UNCHANGED <<proofs, masks>>

(* The questions put to the transcript.  A statement that is committed to otherwise than compiled here shows. *)
AskedOk(stm, p, fed) ==
  /\ Assert(fed[2] = Fed1(p) /\ fed[3] = Fed2(p) /\ fed[4] = Fed3(p) /\ fed[5] = Fed4(p) /\ fed[6] = Fed5(p), <<"the harness asked the transcript another question", S.id, l>>)
  /\ Chks({"P03", "P04", "P05"}, "the statement committed to is the circuit", fed[1] = stm.coms)

----------------------------------------------------------------------------
(* Masks (P09).  Knowing the secret, the value of a mask at the secret (as a group element) and at the        *)
(* opening point can be told from the unmasked polynomial. *)
MaskAtSecret(stm, com, plain) ==
  GMul(Grp, FInv(P, FSub(P, FPow(P, secret, stm.st.n), F1)), GAdd(Grp, com, GNeg(Grp, ComOf(secret, plain))))
MaskAt(stm, x, value, plain) == FMul(P, FInv(P, FSub(P, FPow(P, x, stm.st.n), F1)), FSub(P, value, PEval(P, plain, x)))
MaskList(stm, p, c) ==
  LET f == stm.st.f
      acc == PInterp(P, Accumulator(stm.st, c.beta, c.gamma), stm.st.w)
      zw == FMul(P, c.zeta, stm.st.w)
      one(com, plain, x, value) == [at |-> MaskAtSecret(stm, com, plain), here |-> MaskAt(stm, x, value, plain), x |-> x]
  IN  << one(p.a, f.a, c.zeta, p.ba), one(p.b, f.b, c.zeta, p.bb), one(p.c, f.c, c.zeta, p.bc), one(p.z, acc, zw, p.bzw) >>
Slope(m) == GMul(Grp, FInv(P, FSub(P, secret, m.x)), GAdd(Grp, m.at, GNeg(Grp, GMul(Grp, m.here, GGen(Grp)))))
(* The coefficients of the wire masks, as group elements, and whether two of them are two of the accumulator's *)
(* mask z2 X^2 + z1 X + z0 (whose third coefficient is eliminated from its two known values).               *)
Steps(ms) == [i \in 1 .. 3 |-> Slope(ms[i])]
Starts(ms) == [i \in 1 .. 3 |-> GAdd(Grp, ms[i].at, GNeg(Grp, GMul(Grp, secret, Slope(ms[i]))))]
Scaled(k, gs) == [i \in DOMAIN gs |-> GMul(Grp, k, gs[i])]
Reused(ms) ==
  \E bs \in {Steps(ms) \o Starts(ms)} :
  \E m \in {ms[4]} : \E hereG \in {GMul(Grp, m.here, GGen(Grp))} :
  \E s1 \in {secret} : \E x1 \in {m.x} : \E s2 \in {FMul(P, secret, secret)} : \E x2 \in {FMul(P, m.x, m.x)} :
  LET two(ka, kb, want) == \E as \in {Scaled(ka, bs)} : \E cs \in {Scaled(kb, bs)} : \E i, j \in DOMAIN bs : GAdd(Grp, as[i], cs[j]) = want
      sub(a, b) == FSub(P, a, b)
  IN  \/ two(sub(s2, x2), sub(s1, x1), GAdd(Grp, m.at, GNeg(Grp, hereG)))
      \/ two(sub(FMul(P, s2, x1), FMul(P, x2, s1)), sub(x1, s1), GMsm(Grp, <<x1, FNeg(P, s1)>>, <<m.at, hereG>>))
      \/ two(sub(FMul(P, s1, x2), FMul(P, x1, s2)), sub(x2, s2), GMsm(Grp, <<x2, FNeg(P, s2)>>, <<m.at, hereG>>))
Components(ms) == <<ms[1].at, ms[2].at, ms[3].at, ms[4].at, Slope(ms[1]), Slope(ms[2]), Slope(ms[3]), Starts(ms)[1], Starts(ms)[2], Starts(ms)[3], ms[1].here, ms[2].here, ms[3].here, ms[4].here>>
Shown(p) == <<p.a, p.b, p.c, p.z, p.tlo, p.tmid, p.thi, p.wx, p.wwx, p.ba, p.bb, p.bc, p.bzw>>

(* The polynomials behind the four commitments, where the hook in kzg has shown them: the masks themselves.    *)
(* (A random element of the field has fewer than 50 digits once in 10^26.)                                    *)
MaskPolys(stm, polys, c) ==
  LET f == stm.st.f n == stm.st.n IN
  << MaskOf(polys.a, f.a, n), MaskOf(polys.b, f.b, n), MaskOf(polys.c, f.c, n),
     MaskOf(polys.z, PInterp(P, Accumulator(stm.st, c.beta, c.gamma), stm.st.w), n) >>
MaskCoefs(mps) == mps[1][1] \o mps[2][1] \o mps[3][1] \o mps[4][1]
FreshMasks(stm, seen) ==
  IF ~ Has(E, "polys") THEN masks' = masks \cup seen
  ELSE \E mps \in {MaskPolys(stm, E.polys, E.ch)} : \E co \in {MaskCoefs(mps)} : \E cs \in {{co[i] : i \in DOMAIN co}} : \E neg \in {{FNeg(P, co[i]) : i \in DOMAIN co}} :
       /\ Chk("P09", "a masked polynomial differs by a multiple of the vanishing polynomial", \A i \in 1 .. 4 : mps[i][2] = <<>>)
       /\ Chk("P09", "two random coefficients mask a wire, three the accumulator", \A i \in 1 .. 4 : Len(mps[i][1]) >= (IF i = 4 THEN 3 ELSE 2))
       /\ Chk("P09", "the coefficients of the masks are random", \A i \in DOMAIN co : Len(co[i]) >= 50)
       /\ Chk("P09", "the coefficients of the masks differ", Cardinality(cs) = Len(co) /\ cs \cap neg = {})
       /\ Chk("P09", "the coefficients of the masks are drawn afresh for a proof", cs \cap masks = {})
       /\ masks' = masks \cup seen \cup cs

TProve ==
  /\ Is("prove")
  /\ LET stm == stmts[E.c] IN
     /\ proofs' = Append(proofs, [c |-> E.c, hash |-> E.hash, pf |-> IF Ok(E.res) THEN <<E.res.ok>> ELSE <<>>])
     /\ IF stm.lost THEN UNCHANGED masks
        ELSE
        /\ (stm.sat /\ stm.perm) => ChkIs("P01", "a satisfied circuit is proved", Ok(E.res), TRUE)
        /\ IF Ok(E.res) /\ stm.sat /\ stm.perm /\ S.maskcheck
           THEN \E p \in {E.res.ok} : \E ms \in {MaskList(stm, p, E.ch)} : \E cs \in {Components(ms)} :
                LET new == {cs[i] : i \in 1 .. Len(cs)} sh == Shown(p) shown == {sh[i] : i \in 1 .. Len(sh)} \ {GZero(Grp)} IN
                /\ AskedOk(stm, p, E.fed)
                /\ Chk("P09", "commitments are masked", \A i \in 1 .. 4 : ms[i].at # GZero(Grp))
                /\ Chk("P09", "openings are masked", \A i \in 1 .. 4 : ms[i].here # F0)
                /\ Chk("P09", "masks are not constant", \A i \in 1 .. 4 : Slope(ms[i]) # GZero(Grp))
                /\ Chk("P09", "masks of the wires differ", Cardinality(new) = Len(cs))
                /\ Chk("P09", "the accumulator's mask is not made of the wires' masks", ~ Reused(ms))
                /\ Chk("P09", "masks of the proofs differ", new \cap masks = {})
                /\ Chk("P09", "proofs share no commitment and no opened value", shown \cap masks = {})
                /\ FreshMasks(stm, new \cup shown)
           ELSE UNCHANGED masks
  /\ UNCHANGED <<stmts, pvars>>

(* A verifier's verdict on a proof object: E.p > 0 if it is the p-th proof unaltered, as its prover made it. *)
TVerify ==
  /\ Is("verify")
  /\ LET stm == stmts[E.c]
         own == E.p > 0 /\ proofs[E.p].c = E.c /\ proofs[E.p].hash = E.hash /\ proofs[E.p].pf = <<E.pf>>
         yes == [ok |-> TRUE]
     IN
        /\ (own /\ ~ stm.sat) => Chk("P02", "the proof of an unsatisfied circuit is not accepted", E.res # yes)
        /\ IF stm.lost THEN TRUE
           ELSE
           /\ (own /\ stm.sat /\ stm.perm) => ChkIs("P01", "the proof of a satisfied circuit is accepted", E.res, yes)
           /\ AskedOk(stm, E.pf, E.fed)
           /\ LET want == Verdict(stm.st, secret, E.pf, E.ch) IN
              /\ ChkIs("P03", "verdict", E.res, [ok |-> want])
              \* what an honest prover says, and what is forged for the transcript's challenges, pins the verifier's challenges
              /\ (E.pins /\ want) => Chk("P04", "prover and verifier draw the protocol's challenges from the protocol's messages", E.res = yes)
              /\ (own /\ stm.sat /\ stm.perm) => Chk("P04", "the prover uses the transcript's challenges", want)
  /\ UNCHANGED <<stmts, proofs, masks, pvars>>

(* With a setup of the code's own making: proved and verified. *)
TUsual ==
  /\ Is("usual")
  /\ LET stm == stmts[E.c] IN
     IF stm.lost THEN ~ stm.sat => Chk("P02", "an unsatisfied circuit is not accepted under a random setup", E.res # [ok |-> TRUE])
     ELSE /\ (stm.sat /\ stm.perm) => ChkIs("P01", "a satisfied circuit is proved and accepted under a random setup", E.res, [ok |-> TRUE])
          /\ ~ stm.sat => Chk("P02", "an unsatisfied circuit is not accepted under a random setup", E.res # [ok |-> TRUE])
  /\ UNCHANGED <<stmts, proofs, masks, pvars>>

TCrash == Is("crash") /\ (\A p \in {"P01", "P02", "P03", "P04", "P05", "P09"} : Report(p, S.id, l, E.why)) /\ UNCHANGED <<stmts, proofs, masks, pvars>>
TraceNext == TGate \/ TNew \/ TCompile \/ TProve \/ TVerify \/ TUsual \/ TCrash
Prime == "52435875175126190479447740508185965837690552500527637822603658699938581184513"
=============================================================================
