-------------------------------- MODULE Kzg --------------------------------
(* The KZG commitment scheme (crate kzg) as a session of one user with one setup.                           *)
(*                                                                                                          *)
(* State: the setup (its secret and its capacity) and the tables of everything the session has produced:    *)
(* commitments and openings.  The real code hides the secret; the specification does not, so what a pairing *)
(* equation decides is decided here by comparing group elements.                                            *)
(*                                                                                                          *)
(* Every action carries the result that the scheme returned as its last parameter; XResult(..) is the       *)
(* result the specification prescribes.  The specification takes only prescribed results (Next); a trace    *)
(* check compares the recorded results with them.                                                           *)
EXTENDS Integers, Sequences, FieldOps, PolyOps, GroupOps

CONSTANTS P,     \* the scalar field
          Grp    \* the group of the commitments, of order P

VARIABLES secret,   \* the trapdoor
          cap,      \* number of G1 points in the setup
          coms,     \* commitments: [pt, poly]; poly: the polynomial it stands for, if known
          opens     \* openings: [w, y, poly, z]; poly, z: what it honestly opens, if known

kvars == <<secret, cap, coms, opens>>

G == GGen(Grp)
NoPoly == [known |-> FALSE, f |-> <<>>]
Known(f) == [known |-> TRUE, f |-> PTrim(P, f)]
Ok(x) == [ok |-> x]
Refused == [refused |-> TRUE]
IsOk(res) == "ok" \in DOMAIN res

----------------------------------------------------------------------------
(* What the operations return. *)

SrsG1(s, n) == [i \in 1 .. n + 3 |-> GMul(Grp, FPow(P, s, i - 1), G)]

(* Coefficient vectors may have zeros at the end; what counts is the polynomial. *)
Fits(f) == Len(PTrim(P, f)) <= cap

CommitOf(s, f) == GMul(Grp, PEval(P, f, s), G)
CommitResult(f) == IF Fits(f) THEN Ok(CommitOf(secret, f)) ELSE Refused
CommitParaResult(v) == GMul(Grp, v, G)

ExactOpening(f, z) == [y |-> PEval(P, f, z), w |-> CommitOf(secret, PQuotient(P, PTrim(P, f), z))]
OpenResult(f, z) == IF Fits(f) THEN Ok(ExactOpening(f, z)) ELSE Refused
(* Whether a polynomial that is too long by its leading coefficient alone is refused is left open: its      *)
(* quotient fits.                                                                                           *)
OpenAllowed(f, z, res) == IF IsOk(res) THEN res.ok = ExactOpening(f, z) ELSE ~ Fits(f)

(* C - y G = (s - z) W *)
ValidOpening(c, o, z) ==
  GMsm(Grp, <<FE(P, 1), FNeg(P, o.y)>>, <<c, G>>) = GMul(Grp, FSub(P, secret, z), o.w)

VerifyResult(c, o, z) == ValidOpening(c, o, z)

(* items: sequence of [c, o, z] *)
(* All lists have one entry per item; anything else is refused. *)
BatchResult(items) == \A i \in 1 .. Len(items) : ValidOpening(items[i].c, items[i].o, items[i].z)

AddResult(a, b) == GAdd(Grp, a, b)
SubResult(a, b) == GAdd(Grp, a, GNeg(Grp, b))
NegResult(a)    == GNeg(Grp, a)
MulResult(a, k) == GMul(Grp, k, a)
AggregateResult(cs, k) == GMsm(Grp, [i \in 1 .. Len(cs) |-> FPow(P, k, i - 1)], cs)
AddOpeningResult(a, b) == [y |-> FAdd(P, a.y, b.y), w |-> GAdd(Grp, a.w, b.w)]

----------------------------------------------------------------------------
(* Ghost arithmetic: the polynomial a derived commitment stands for. *)
GAddPoly(f, g) == IF f.known /\ g.known THEN Known(PAdd(P, f.f, g.f)) ELSE NoPoly
GScalePoly(k, f) == IF f.known THEN Known(PScale(P, k, f.f)) ELSE NoPoly
MinusOne == FNeg(P, FE(P, 1))
RECURSIVE GAggPoly(_, _)
GAggPoly(fs, k) == IF fs = <<>> THEN Known(<<>>) ELSE GAddPoly(fs[1], GScalePoly(k, GAggPoly(Tail(fs), k)))

----------------------------------------------------------------------------
(* Actions. *)
Setup(s, n) == secret' = s /\ cap' = n + 3 /\ coms' = <<>> /\ opens' = <<>>

PushCom(c, f) == coms' = Append(coms, [pt |-> c, poly |-> f]) /\ UNCHANGED <<secret, cap, opens>>
PushOpen(o, f, z) ==
  opens' = Append(opens, [w |-> o.w, y |-> o.y, poly |-> f, z |-> z]) /\ UNCHANGED <<secret, cap, coms>>
Observe == UNCHANGED kvars

Commit(f, res) == IF IsOk(res) THEN PushCom(res.ok, Known(f)) ELSE Observe
CommitPara(v, res) == PushCom(res, Known(<<v>>))
Open(f, z, res) == IF IsOk(res) THEN PushOpen(res.ok, Known(f), z) ELSE Observe
Add(i, j, res) == PushCom(res, GAddPoly(coms[i].poly, coms[j].poly))
Sub(i, j, res) == PushCom(res, GAddPoly(coms[i].poly, GScalePoly(MinusOne, coms[j].poly)))
Neg(i, res)    == PushCom(res, GScalePoly(MinusOne, coms[i].poly))
Mul(i, k, res) == PushCom(res, GScalePoly(k, coms[i].poly))
Aggregate(is, k, res) == PushCom(res, GAggPoly([m \in 1 .. Len(is) |-> coms[is[m]].poly], k))
(* Openings at the same point add to an opening of the sum. *)
AddOpening(i, j, res) ==
  PushOpen(res, IF opens[i].z = opens[j].z THEN GAddPoly(opens[i].poly, opens[j].poly) ELSE NoPoly, opens[i].z)
Verify(i, j, z, res) == Observe
Batch(is, js, zs, res) == Observe

(* The adversary brings group elements and values of its own. *)
ForgeCom(k)     == PushCom(GMul(Grp, k, G), NoPoly)
ForgeOpen(k, y) == PushOpen([w |-> GMul(Grp, k, G), y |-> y], NoPoly, FE(P, 0))
(* ... or alters one component of an opening. *)
AlterValue(i, d)   == PushOpen([w |-> opens[i].w, y |-> FAdd(P, opens[i].y, d)], NoPoly, opens[i].z)
AlterWitness(i, k) == PushOpen([w |-> GAdd(Grp, opens[i].w, GMul(Grp, k, G)), y |-> opens[i].y], NoPoly, opens[i].z)

----------------------------------------------------------------------------
(* Properties. *)

(* K01, K05: whatever way a commitment was derived, it is its polynomial at the secret. *)
CommitmentsTrue == \A i \in 1 .. Len(coms) : coms[i].poly.known => coms[i].pt = CommitOf(secret, coms[i].poly.f)

(* K02, K05: honest and added openings verify against the commitment of their polynomial. *)
HonestOpeningsVerify ==
  \A i \in 1 .. Len(opens) : opens[i].poly.known =>
    /\ opens[i].y = PEval(P, opens[i].poly.f, opens[i].z)
    /\ VerifyResult(CommitOf(secret, opens[i].poly.f), opens[i], opens[i].z)

(* K03: an altered component never verifies where the unaltered opening did. *)
AlteredRejected ==
  \A i \in 1 .. Len(opens) : opens[i].poly.known =>
    LET c == CommitOf(secret, opens[i].poly.f) o == opens[i] IN
    \A d \in 1 .. P - 1 :
      /\ ~ VerifyResult(c, [o EXCEPT !.y = FAdd(P, @, d)], o.z)
      /\ ~ VerifyResult(GAdd(Grp, c, GMul(Grp, d, G)), o, o.z)
      /\ o.z # secret => ~ VerifyResult(c, [o EXCEPT !.w = GAdd(Grp, @, GMul(Grp, d, G))], o.z)
      /\ Len(opens[i].poly.f) > 1 /\ o.w # GZero(Grp) => ~ VerifyResult(c, o, FAdd(P, o.z, d))

(* K04: the random linear combination that the code evaluates equals the conjunction, except when the       *)
(* coefficients happen to cancel the errors.                                                                *)
BatchEquation(items, rs) ==
  GMsm(Grp, rs, [i \in 1 .. Len(items) |->
     GMsm(Grp, <<FE(P, 1), FNeg(P, items[i].o.y), items[i].z>>, <<items[i].c, G, items[i].o.w>>)])
  = GMul(Grp, secret, GMsm(Grp, rs, [i \in 1 .. Len(items) |-> items[i].o.w]))
Cardinality2(S) == IF S = {} THEN 0 ELSE IF \A x \in S, y \in S : x = y THEN 1 ELSE 2
BatchCombination(Rs) ==
  \A a \in 1 .. Len(coms), b \in 1 .. Len(coms), i \in 1 .. Len(opens), j \in 1 .. Len(opens) :
    LET items == << [c |-> coms[a].pt, o |-> opens[i], z |-> opens[i].z], [c |-> coms[b].pt, o |-> opens[j], z |-> opens[j].z] >>
        Bad == {r \in Rs \X Rs : BatchEquation(items, r) # BatchResult(items)}
    IN  /\ BatchResult(items) => Bad = {}
        \* at most one coefficient in |Rs| hides an error
        /\ \A r1 \in Rs : \/ Cardinality2({r \in Bad : r[1] = r1}) <= 1
                          \/ ValidOpening(items[2].c, items[2].o, items[2].z)
  \* (if the second item is valid the error sits in the first one alone and r1 = 0 is the only bad choice)
=============================================================================
