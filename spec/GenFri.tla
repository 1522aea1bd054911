------------------------------- MODULE GenFri -------------------------------
(* Adversaries of the FRI verifier: a statement, how the prover departs from the protocol while building    *)
(* the proof (plan), and what is changed in the finished proof (moves).  Printed for the harness.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth
VARIABLES hist, base
Pick(S) == RandomElement(S)
GenInit == hist = <<>> /\ base = [f |-> <<>>]

Fields == {"f17", "f97", "f193", "f257", "f12289", "gold", "gold", "fr"}
GBase == hist = <<>> /\ \E n \in {Pick({0, 1, 2, 3, 4, 5, 7, 8})} : \E f \in {[i \in 1 .. n |-> Pick(0 .. 16)]} :
  /\ base' = [f |-> f, field |-> Pick(Fields), blowup |-> Pick({1, 2, 2, 2, 4}), nq |-> Pick(0 .. 5), hash |-> Pick({"sha256", "sha512"}), salt |-> Pick(0 .. 1000000)]
  /\ hist' = <<[op |-> "base"]>>
Log(r) == hist' = Append(hist, r) /\ UNCHANGED base
N4 == [a |-> Pick(0 .. 50), b |-> Pick(0 .. 50), c |-> Pick(0 .. 50), d |-> Pick(1 .. 15)]
Plan(m) == \E x \in {N4} : Log([op |-> "plan", m |-> m, a |-> x.a, b |-> x.b, c |-> x.c, d |-> x.d])
Move(m) == \E x \in {N4} : Log([op |-> "move", m |-> m, a |-> x.a, b |-> x.b, c |-> x.c, d |-> x.d])
Plans == {"alter", "alterfollow", "const", "skiproot", "skipconst", "swaproots", "init", "otherhash", "early"}
Moves == {"const", "root", "eval", "leaf", "both", "index", "sib", "proot", "pathpop", "pathpush", "swapsides", "swapq", "dupq", "dropq", "nq",
          "domain", "coset", "droplayer", "dupllayer", "evalpop", "sympop", "apop", "spop", "crosslayer", "crossquery", "foreignpath", "foreignroot", "foreign", "nothing"}
GPlan == \E m \in {Pick(Plans)} : Plan(m)
GMove == \E m \in {Pick(Moves)} : Move(m)
(* Half of the adversaries make one move. *)
Stop == Len(hist) > 1 /\ Len(hist) < Depth /\ Pick(1 .. 2) = 1 /\ Log([op |-> "stop"])
Last == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op
Ended == Last = "stop" \/ Len(hist) = Depth
GEmit == Ended /\ Last # "end" /\ PrintT("@@SCRIPT " \o ToJson([base |-> base, hist |-> hist])) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED base
GenNext == GEmit \/ (hist = <<>> /\ GBase) \/ (hist # <<>> /\ ~ Ended /\ Last # "end" /\ Len(hist) < Depth /\ (GPlan \/ GMove \/ GMove \/ Stop))
=============================================================================
