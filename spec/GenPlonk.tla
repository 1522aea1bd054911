------------------------------ MODULE GenPlonk ------------------------------
(* Random circuits and sessions, printed for the harness.  A circuit is built gate by gate over variables;    *)
(* the cells of a variable form one cycle of the wiring, grown at a random place.  Values are tokens; the     *)
(* harness gives tokens scalars and works out what a gate's output or public input has to be (mode "fix").   *)
(* Then the circuit may be broken (a value, a public input, a kind, two wires exchanged), and a session with  *)
(* provers, verifiers and forgers follows.  What is to be accepted is for TracePlonk to say.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxGates, Moves
VARIABLES rows, vars, goal, phase, hist
gvars == <<rows, vars, goal, phase, hist>>
Pick(S) == RandomElement(S)

GenInit == rows = <<>> /\ vars = <<>> /\ goal \in 1 .. MaxGates /\ phase = "build" /\ hist = <<>>

(* vars[i]: the set of cells <<column, row>> of variable i.  rows[i]: [k, x, s, pi]. *)
CellsOf(i) == vars[i]
(* A wire takes a variable that exists (its number) or the next new one. *)
Choices(n) == IF n = 0 THEN {1} ELSE {Pick(1 .. n), n + 1}
SigmaAt(rs, y) == rs[y[2] + 1].s[y[1] + 1]
SetSigma(rs, y, to) == [rs EXCEPT ![y[2] + 1].s[y[1] + 1] = to]
(* Adds cell x to variable i, whose cells form a cycle: after a random one of them. *)
Enter(rs, vs, x, i) ==
  IF i > Len(vs) THEN [rs |-> SetSigma(rs, x, x), vs |-> Append(vs, {x})]
  ELSE LET y == CHOOSE y \in {Pick(vs[i])} : TRUE IN
       [rs |-> SetSigma(SetSigma(rs, x, SigmaAt(rs, y)), y, x), vs |-> [vs EXCEPT ![i] = @ \cup {x}]]

GGate ==
  /\ phase = "build" /\ Len(rows) < goal
  /\ \E k \in {Pick({"add", "mul", "add", "mul", "const"})} : \E pi \in {Pick({0, 0, 1, 2, 3, 4, 5})} :
     \E va \in {Pick(Choices(Len(vars)))} :
     LET r == Len(rows)
         none == <<0, 0>>
         rs0 == Append(rows, [k |-> k, x |-> <<va, 0, 0>>, s |-> <<none, none, none>>, pi |-> IF k = "const" THEN 0 ELSE pi])
     IN \E e1 \in {Enter(rs0, vars, <<0, r>>, va)} :
        \E vb \in {Pick(Choices(Len(e1.vs)))} :
        \E e2 \in {Enter([e1.rs EXCEPT ![r + 1].x[2] = vb], e1.vs, <<1, r>>, vb)} :
        \E vc \in {IF Pick(1 .. 4) > 1 THEN Len(e2.vs) + 1 ELSE Pick(Choices(Len(e2.vs)))} :
        \E e3 \in {Enter([e2.rs EXCEPT ![r + 1].x[3] = vc], e2.vs, <<2, r>>, vc)} :
           rows' = e3.rs /\ vars' = e3.vs
  /\ UNCHANGED <<goal, phase, hist>>
Built == phase = "build" /\ Len(rows) = goal /\ phase' = "break" /\ UNCHANGED <<rows, vars, goal, hist>>

Log(r) == hist' = Append(hist, r) /\ UNCHANGED <<rows, vars, goal>>
Row == Pick(0 .. Len(rows) - 1)
ACell == <<Pick(0 .. 2), Row>>
GBreak ==
  /\ phase = "break" /\ phase' = "session"
  /\ CASE Pick(1 .. 6) \in {1, 2} -> Log([m |-> "whole"])
       [] OTHER ->
          \E q \in {Pick(1 .. 5)} : \E x \in {ACell} : \E y \in {ACell} : \E d \in {Pick(1 .. 5)} : \E k \in {Pick({"add", "mul", "const"})} :
            CASE q = 1 -> Log([m |-> "value", x |-> x, d |-> d])
              [] q = 2 -> Log([m |-> "public", x |-> x, d |-> d])
              [] q = 3 -> Log([m |-> "kind", x |-> x, k |-> k])
              [] q \in {4, 5} -> Log([m |-> "swap", x |-> x, y |-> y])
Fields == {"a", "b", "c", "z", "tlo", "tmid", "thi", "wx", "wwx", "ba", "bb", "bc", "bs1", "bs2", "bzw", "u", "deg"}
Hashes == {"sha256", "sha512", "sha384", "sha224", "len8"}
GMove ==
  /\ phase = "session" /\ Len(hist) <= Moves
  /\ \E q \in {Pick(1 .. 14)} : \E p \in {Pick(1 .. 4)} : \E o \in {Pick(1 .. 4)} : \E f \in {Pick(Fields)} : \E g \in {Pick(Fields)} :
     \E d \in {Pick(0 .. 5)} : \E h \in {Pick(Hashes)} : \E x \in {ACell} :
       CASE q \in {1, 2} -> Log([m |-> "prove", h |-> h, extra |-> d])
         [] q \in {3, 4} -> Log([m |-> "alter", p |-> p, f |-> f, d |-> d])
         [] q = 5 -> Log([m |-> "mix", p |-> p, o |-> o, f |-> f])
         [] q = 6 -> Log([m |-> "exchange", p |-> p, f |-> f, g |-> g])
         [] q \in {7, 8} -> Log([m |-> "forge", p |-> p, f |-> f, d |-> d])
         [] q = 9 -> Log([m |-> "otherhash", p |-> p, h |-> h])
         [] q \in {10, 11} -> Log([m |-> "othercircuit", p |-> p, x |-> x, d |-> d, o |-> o])
         [] q = 13 -> Log([m |-> "amend", p |-> p, f |-> f, g |-> IF d > 2 THEN g ELSE "", d |-> d])
         [] q = 14 -> Log([m |-> "spoil", p |-> p, f |-> f, d |-> Pick(0 .. 7)])
         [] q = 12 -> Log([m |-> "biggersetup", p |-> p, d |-> d])
  /\ UNCHANGED phase
GEmit ==
  /\ phase = "session" /\ Len(hist) = Moves + 1 /\ phase' = "end"
  /\ PrintT("@@SCRIPT " \o ToJson([rows |-> rows, nvars |-> Len(vars), hist |-> hist, salt |-> Pick(0 .. 1000000)]))
  /\ UNCHANGED <<rows, vars, goal, hist>>
GenNext == GGate \/ Built \/ GBreak \/ GMove \/ GEmit

(* The wiring is a permutation at every point, and joins exactly the cells of a variable. *)
Wiring ==
  LET cs == UNION {vars[i] : i \in 1 .. Len(vars)} IN
  /\ Cardinality({SigmaAt(rows, y) : y \in cs}) = Cardinality(cs)
  /\ \A i \in 1 .. Len(vars) : \A y \in vars[i] : SigmaAt(rows, y) \in vars[i]
=============================================================================
