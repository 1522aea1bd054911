------------------------------ MODULE GenNova ------------------------------
(* Random folding sessions over random systems, printed for the harness.  Systems are circuits in disguise:   *)
(* row k defines variable free + k, further rows repeat earlier ones, so that fresh satisfied pairs can be    *)
(* computed.  Numbers are residues that the harness turns into scalars.                                      *)
EXTENDS Nova, TLC, Json
CONSTANT Depth
VARIABLES hist, free
gvars == <<nvars, hist, free>>
Pick(S) == RandomElement(S)
Dice(n) == RandomElement(1 .. n)

(* Coefficients over variables defined so far, public values and the scalar. *)
RandRow(defined, vs, io) ==
  [j \in 1 .. vs + io + 1 |-> IF j <= defined \/ j > vs THEN Pick({0, 0, 1, 2, P - 1}) ELSE 0]
Unit(n, k) == [j \in 1 .. n |-> IF j = k THEN 1 ELSE 0]
GenInit ==
  \E f \in {Pick(1 .. 3)} : \E new \in {Pick(0 .. 3)} : \E again \in {Pick(0 .. 4)} : \E io \in {Pick({0, 1, 1, 2})} :
  LET vs == f + new
      ra == [k \in 1 .. new |-> RandRow(f + k - 1, vs, io)]
      rb == [k \in 1 .. new |-> RandRow(f + k - 1, vs, io)]
      rc == [k \in 1 .. new |-> Unit(vs + io + 1, f + k)]
      rep == [k \in 1 .. (IF new = 0 THEN 0 ELSE again) |-> Pick(1 .. new)]
  IN  /\ \E a \in {ra} : \E b \in {rb} : \E c \in {rc} : \E p \in {rep} :
           sys = [a |-> [k \in 1 .. new + Len(p) |-> IF k <= new THEN a[k] ELSE a[p[k - new]]],
                  b |-> [k \in 1 .. new + Len(p) |-> IF k <= new THEN b[k] ELSE b[p[k - new]]],
                  c |-> [k \in 1 .. new + Len(p) |-> IF k <= new THEN c[k] ELSE c[p[k - new]]],
                  io |-> io, vars |-> vs]
      /\ free = f /\ secret \in {3} /\ pairs = <<>> /\ hist = <<>>

Log(r) == hist' = Append(hist, r) /\ UNCHANGED free
NP == Len(pairs)
RandVec(n) == CHOOSE v \in {[i \in 1 .. n |-> Pick(0 .. P - 1)]} : TRUE

(* The variables that the rows define, one after the other. *)
RECURSIVE SolveFrom(_, _, _)
SolveFrom(w, x, k) ==
  IF k > sys.vars - free THEN w
  ELSE LET z == w \o x \o <<F1>> IN SolveFrom([w EXCEPT ![free + k] = FMul(P, Dot(sys.a[k], z), Dot(sys.b[k], z))], x, k + 1)
Solve(fv, x) == SolveFrom([i \in 1 .. sys.vars |-> IF i <= free THEN fv[i] ELSE F0], x, 1)

Zeros(n) == [i \in 1 .. n |-> F0]
GFresh == \E fv \in {RandVec(free)} : \E x \in {RandVec(sys.io)} : \E n \in {Pick({Rows(sys), Rows(sys), sys.vars, Rows(sys) + 2, 0})} :
            LET fw == [e |-> Zeros(n), w |-> Solve(fv, x)] IN
            Put(Instance(secret, fw, F1, x), fw, TRUE) /\ Log([op |-> "fresh", free |-> fv, x |-> x, elen |-> n])
GRelaxed == \E w \in {RandVec(sys.vars)} : \E x \in {RandVec(sys.io)} : \E u \in {Pick(0 .. P - 1)} :
            LET fw == [e |-> ErrorOf(sys, w \o x \o <<u>>, u), w |-> w] IN
            Put(Instance(secret, fw, u, x), fw, TRUE) /\ Log([op |-> "relaxed", w |-> w, x |-> x, u |-> u])
GTrivial == LET t == TrivialPair(secret, sys.io, sys.vars) IN Put(t.fi, t.fw, TRUE) /\ Log([op |-> "trivial"])
Shaped == {k \in 1 .. NP : RightShape(sys, pairs[k].fi, pairs[k].fw)}
GFold == Shaped # {} /\ \E i \in {Pick(Shaped)} : \E j \in {Pick(Shaped)} : \E r \in {Pick(0 .. P - 1)} : \E how \in {Pick({"prover", "prover", "given"})} :
            Fold(i, j, r) /\ Log([op |-> "fold", i |-> i, j |-> j, r |-> r, how |-> how])
GSat == NP > 0 /\ \E i \in {Pick(1 .. NP)} : UNCHANGED nvars /\ Log([op |-> "sat", i |-> i])
Parts == {"e", "e", "w", "w", "x", "x", "u", "ce", "cw", "longe", "taile", "shorte", "longw", "shortw", "longx", "shortx", "swapw"}
GAlter == NP > 0 /\ \E i \in {Pick(1 .. NP)} : \E part \in {Pick(Parts)} : \E k \in {Pick(0 .. 7)} : \E d \in {Pick(1 .. 4)} : \E keep \in {Pick({TRUE, FALSE})} :
            \* what becomes of the pair is for the trace to say
            UNCHANGED <<sys, secret>> /\ pairs' = Append(pairs, [pairs[i] EXCEPT !.good = FALSE, !.fw.w = <<>>, !.fi.x = <<>>])
            /\ Log([op |-> "alter", i |-> i, part |-> part, k |-> k, d |-> d, recommit |-> keep])
Fields == {"none", "none", "r", "point", "oey", "oew", "owy", "oww", "swap", "ct", "fi1", "fi2", "fi3"}
GVerify == Shaped # {} /\ \E i \in {Pick(Shaped)} : \E j \in {Pick(Shaped)} : \E f \in {Pick(Fields)} : \E d \in {Pick(1 .. 4)} : \E pre \in {Pick(0 .. 2)} :
            Fold(i, j, 1) /\ Log([op |-> "verify", i |-> i, j |-> j, f |-> f, d |-> d, pre |-> pre])
GEmit == Len(hist) = Depth /\ PrintT("@@SCRIPT " \o ToJson([p |-> P, sys |-> sys, free |-> free, hist |-> hist]))
         /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<nvars, free>>
GenNext == GEmit \/ (Len(hist) < Depth /\ (GFresh \/ GFresh \/ GRelaxed \/ GTrivial \/ GFold \/ GFold \/ GFold \/ GSat \/ GSat \/ GAlter \/ GVerify))
GenCorrect == GoodIsSatisfied
=============================================================================
