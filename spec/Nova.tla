-------------------------------- MODULE Nova --------------------------------
(* Relaxed R1CS and the folding scheme of Nova (crate nova: r1cs, nifs).                                     *)
(*                                                                                                          *)
(* State: one constraint system, the secret of the setup, and the table of the instance-witness pairs of    *)
(* the session.  A pair may be committed to by its owner, be the trivial one, be put together by anybody,   *)
(* or be the fold of two others with a challenge.  Ghost `good`: the pair is satisfied by construction.     *)
EXTENDS Integers, Sequences, FieldOps, PolyOps, GroupOps
CONSTANTS P, Grp

VARIABLES sys,      \* [a, b, c: matrices (sequences of rows), io, vars]
          secret,
          pairs     \* sequence of [fi: [ce, u, cw, x], fw: [e, w], good]
nvars == <<sys, secret, pairs>>

F0 == FE(P, 0)
F1 == FE(P, 1)

----------------------------------------------------------------------------
(* Vectors.  Entries beyond the end are zero. *)
At(v, i) == IF i \in 1 .. Len(v) THEN v[i] ELSE F0
Longer(v, w) == Max2(Len(v), Len(w))
RECURSIVE DotTo(_, _, _)
DotTo(row, z, n) == IF n = 0 THEN F0 ELSE FAdd(P, DotTo(row, z, n - 1), FMul(P, row[n], z[n]))
Dot(row, z) == DotTo(row, z, IF Len(row) < Len(z) THEN Len(row) ELSE Len(z))
MatVec(m, z) == [i \in 1 .. Len(m) |-> Dot(m[i], z)]
SameVector(v, w) == \A i \in 1 .. Longer(v, w) : At(v, i) = At(w, i)
(* v + r w *)
Axpy(v, r, w) == [i \in 1 .. Longer(v, w) |-> FAdd(P, At(v, i), FMul(P, r, At(w, i)))]

CommitV(s, v) == GMul(Grp, PEval(P, v, s), GGen(Grp))
IsZeroVector(v) == \A i \in 1 .. Len(v) : v[i] = F0

----------------------------------------------------------------------------
(* The relation. *)
Zof(fi, fw) == fw.w \o fi.x \o <<fi.u>>
Rows(y) == Len(y.a)

(* What the error vector has to be: A z o B z - u C z. *)
ErrorOf(y, z, u) ==
  LET az == MatVec(y.a, z) bz == MatVec(y.b, z) cz == MatVec(y.c, z) IN
  [i \in 1 .. Rows(y) |-> FSub(P, FMul(P, az[i], bz[i]), FMul(P, u, cz[i]))]

RightShape(y, fi, fw) == Len(fw.w) = y.vars /\ Len(fi.x) = y.io
RowsHold(y, fi, fw) == SameVector(fw.e, ErrorOf(y, Zof(fi, fw), fi.u))
Opens(s, fi, fw) == fi.ce = CommitV(s, fw.e) /\ fi.cw = CommitV(s, fw.w)
Satisfied(y, s, fi, fw) == RightShape(y, fi, fw) /\ RowsHold(y, fi, fw) /\ Opens(s, fi, fw)

----------------------------------------------------------------------------
(* Folding. *)
CrossTerm(y, u1, u2, z1, z2) ==
  LET az1 == MatVec(y.a, z1) bz1 == MatVec(y.b, z1) cz1 == MatVec(y.c, z1)
      az2 == MatVec(y.a, z2) bz2 == MatVec(y.b, z2) cz2 == MatVec(y.c, z2)
  IN  [i \in 1 .. Rows(y) |->
        FSub(P, FAdd(P, FMul(P, az1[i], bz2[i]), FMul(P, az2[i], bz1[i])),
                FAdd(P, FMul(P, u1, cz2[i]), FMul(P, u2, cz1[i])))]
CrossOf(y, p1, p2) == CrossTerm(y, p1.fi.u, p2.fi.u, Zof(p1.fi, p1.fw), Zof(p2.fi, p2.fw))

FoldW(r, fw1, fw2, t) == [e |-> Axpy(Axpy(fw1.e, r, t), FMul(P, r, r), fw2.e), w |-> Axpy(fw1.w, r, fw2.w)]
FoldI(r, fi1, fi2, ct) ==
  [ce |-> GMsm(Grp, <<F1, r, FMul(P, r, r)>>, <<fi1.ce, ct, fi2.ce>>),
   u  |-> FAdd(P, fi1.u, FMul(P, r, fi2.u)),
   cw |-> GMsm(Grp, <<F1, r>>, <<fi1.cw, fi2.cw>>),
   x  |-> Axpy(fi1.x, r, fi2.x)]
SameWitness(a, b) == a.w = b.w /\ SameVector(a.e, b.e)

(* What the folding challenge is drawn from, and what the opening point is drawn from besides. *)
Group(g) == <<"g", g>>
Scalar(x) == <<"s", x>>
InstanceItems(fi) == <<Group(fi.ce), Scalar(fi.u), Group(fi.cw)>> \o [i \in 1 .. Len(fi.x) |-> Scalar(fi.x[i])]
ChallengeItems(fi1, fi2, ct) == InstanceItems(fi1) \o InstanceItems(fi2) \o <<Group(ct)>>
PointItems(fi3) == <<Group(fi3.ce), Group(fi3.cw)>>

(* A KZG opening, the secret being known: c - y G = (s - z) W. *)
ValidOpening(s, c, o, z) == GMsm(Grp, <<F1, FNeg(P, o.y)>>, <<c, GGen(Grp)>>) = GMul(Grp, FSub(P, s, z), o.w)
OpeningOf(s, v, z) == [y |-> PEval(P, v, z), w |-> CommitV(s, PQuotient(P, PTrim(P, v), z))]

(* The folding verifier, given what the transcript answers. *)
FoldingAccepted(s, pf, fi3, r, point) ==
  /\ pf.r = r
  /\ pf.point = point
  /\ ValidOpening(s, fi3.cw, pf.ow, point)
  /\ ValidOpening(s, fi3.ce, pf.oe, point)

----------------------------------------------------------------------------
(* Actions. *)
Instance(s, fw, u, x) == [ce |-> CommitV(s, fw.e), u |-> u, cw |-> CommitV(s, fw.w), x |-> x]
Put(fi, fw, good) == pairs' = Append(pairs, [fi |-> fi, fw |-> fw, good |-> good]) /\ UNCHANGED <<sys, secret>>

TrivialPair(s, io, vars) ==
  LET fw == [e |-> [i \in 1 .. vars |-> F0], w |-> [i \in 1 .. vars |-> F0]]
  IN  [fw |-> fw, fi |-> Instance(s, fw, F0, [i \in 1 .. io |-> F0])]

FoldPair(y, r, p1, p2, s) ==
  LET t == CrossOf(y, p1, p2) IN
  [fw |-> FoldW(r, p1.fw, p2.fw, t), fi |-> FoldI(r, p1.fi, p2.fi, CommitV(s, t)), good |-> p1.good /\ p2.good]
Fold(i, j, r) == pairs' = Append(pairs, FoldPair(sys, r, pairs[i], pairs[j], secret)) /\ UNCHANGED <<sys, secret>>

----------------------------------------------------------------------------
(* Properties of the state. *)
IsSat(p) == Satisfied(sys, secret, p.fi, p.fw)

(* N01: whatever is satisfied by construction is satisfied; the folded instance commits to the folded       *)
(* witness, whether or not the rows hold.                                                                   *)
GoodIsSatisfied == \A k \in 1 .. Len(pairs) : pairs[k].good => IsSat(pairs[k])

(* N02: a fold with an unsatisfied pair is satisfied for at most two challenges. *)
Few(S) == \A a, b, c \in S : a = b \/ b = c \/ a = c
BadStaysBad(Rs) ==
  \A i, j \in 1 .. Len(pairs) :
    (~ IsSat(pairs[i]) \/ ~ IsSat(pairs[j])) /\ RightShape(sys, pairs[i].fi, pairs[i].fw) /\ RightShape(sys, pairs[j].fi, pairs[j].fw)
      => Few({r \in Rs : IsSat(FoldPair(sys, r, pairs[i], pairs[j], secret))})

(* N02: no single alteration of a satisfied pair is satisfied, except by changing what does not matter: a   *)
(* variable or a public value none of whose rows counts.                                                    *)
Matters(fi, fw) == ~ SameVector(ErrorOf(sys, Zof(fi, fw), fi.u), fw.e)
AlterationsShow ==
  \A k \in 1 .. Len(pairs) : IsSat(pairs[k]) =>
    LET fi == pairs[k].fi fw == pairs[k].fw IN
    \A d \in 1 .. P - 1 :
      /\ \A i \in 1 .. Rows(sys) : ~ Satisfied(sys, secret, fi, [fw EXCEPT !.e = Axpy(@, d, [j \in 1 .. i |-> IF j = i THEN F1 ELSE F0])])
      /\ \A i \in 1 .. Len(fi.x) : LET g == [fi EXCEPT !.x[i] = FAdd(P, @, d)] IN Matters(g, fw) => ~ Satisfied(sys, secret, g, fw)
      /\ \A i \in 1 .. Len(fw.w) : LET v == [fw EXCEPT !.w[i] = FAdd(P, @, d)] IN
           (Matters(fi, v) \/ FMul(P, d, FPow(P, secret, i - 1)) # F0) => ~ Satisfied(sys, secret, fi, v)
      /\ LET g == [fi EXCEPT !.u = FAdd(P, @, d)] IN Matters(g, fw) => ~ Satisfied(sys, secret, g, fw)
      /\ ~ Satisfied(sys, secret, [fi EXCEPT !.ce = GAdd(Grp, @, GMul(Grp, d, GGen(Grp)))], fw)
      /\ ~ Satisfied(sys, secret, [fi EXCEPT !.cw = GAdd(Grp, @, GMul(Grp, d, GGen(Grp)))], fw)
=============================================================================
