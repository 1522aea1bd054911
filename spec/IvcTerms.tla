------------------------------ MODULE IvcTerms ------------------------------
(* Ivc with ideal hashes, commitments and openings: answers are terms that contain their questions.          *)
EXTENDS Ivc
Hash(a) == <<"H", a.i, a.z0, a.z, a.U>>
Challenge(u, U, ct) == <<"R", u, U, ct>>
Folded(r, u, U, ct) ==
  LET F == IF r = Challenge(u, U, ct) THEN r ELSE <<"R'", r, u, U, ct>> IN
  [ce |-> <<"ce", F>>, u |-> <<"u", F>>, cw |-> <<"cw", F>>, x |-> << <<"x", F>> >>]
Point(r, V) == <<"P", r, V.ce, V.cw>>
Opening(c, z) == <<"O", c, z>>

Triv == [ce |-> <<"0">>, u |-> <<"0">>, cw |-> <<"0">>, x |-> << <<"0">> >>]
TermOne == <<"1">>
StepInstance(w, h) == [ce |-> <<"0">>, u |-> TermOne, cw |-> <<"w", w>>, x |-> <<h>>]
CrossCom(u, U) == <<"T", u, U>>
TermSucc(i) == i + 1
TermScalar(h) == h
Mod3(kind, z, w) == (IF kind = "add" THEN z + w ELSE z * w + 1) % 3

(* What whoever knows both witnesses can prove. *)
ProofOf(u, U) ==
  LET ct == CrossCom(u, U) r == Challenge(u, U, ct) V == Folded(r, u, U, ct) z == Point(r, V) IN
  [u |-> u, U |-> U, ct |-> Some(ct), pf |-> Some([r |-> r, point |-> z, ow |-> Opening(V.cw, z), oe |-> Opening(V.ce, z)])]
FoldingHolds(zk) ==
  LET p == The(zk.pf) ct == The(zk.ct) r == Challenge(zk.u, zk.U, ct) V == Folded(p.r, zk.u, zk.U, ct) z == Point(r, V) IN
  p.r = r /\ p.point = z /\ p.ow = Opening(V.cw, z) /\ p.oe = Opening(V.ce, z)
Accepts(c, zk) == MayAccept(c, zk, Hash(CurrentArgs(c, zk.U)), IsWhole(zk) /\ FoldingHolds(zk))
RunTerm(k, u, U, ct, w) ==
  LET c == chains[k]
      V == IF U # None /\ ct # None THEN Folded(Challenge(u, The(U), The(ct)), u, The(U), The(ct)) ELSE Triv IN
  Run(k, u, U, ct, w, IF U # None THEN Hash(CurrentArgs(c, The(U))) ELSE <<>>, Hash(NextArgs(c, w, V)))
Allowed(c, u, U, ct) == MayRun(c, u, U, ct, IF U # None THEN Hash(CurrentArgs(c, The(U))) ELSE <<>>)
=============================================================================
