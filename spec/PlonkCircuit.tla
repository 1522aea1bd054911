---------------------------- MODULE PlonkCircuit ----------------------------
(* PLONK circuits of addition, multiplication and constant gates, what they say, and their compilation.       *)
(*                                                                                                          *)
(* A gate is [k, w, pi]: its kind, its three wires (each [c, r, v]: the cell - column 0..2 and row from 0 -  *)
(* that the wire is sent to, and the wire's value) and its public input.  The wire in column j of gate i is  *)
(* itself the cell (j, i).                                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, FieldOps, PolyOps, GroupOps

CONSTANTS P, Grp

RECURSIVE Pow2From(_, _)
Pow2From(n, k) == IF k >= n THEN k ELSE Pow2From(n, 2 * k)
Pow2AtLeast(n) == Pow2From(n, 1)
IsPow2(n) == n >= 1 /\ Pow2AtLeast(n) = n

F0 == FE(P, 0)
F1 == FE(P, 1)
FM1 == FNeg(P, F1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN F0 ELSE FAdd(P, s[1], Sum(Tail(s)))
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN F1 ELSE FMul(P, s[1], Prod(Tail(s)))

----------------------------------------------------------------------------
(* Circuits and what they say. *)

Kinds == {"add", "mul", "const"}
(* q_l a + q_r b + q_o c + q_m a b + q_c + PI = 0 *)
Selectors(g) ==
  CASE g.k = "add"   -> [l |-> F1, r |-> F1, o |-> FM1, m |-> F0, q |-> F0]
    [] g.k = "mul"   -> [l |-> F0, r |-> F0, o |-> FM1, m |-> F1, q |-> F0]
    [] g.k = "const" -> [l |-> F1, r |-> F0, o |-> F0, m |-> F0, q |-> FNeg(P, g.w[1].v)]
    [] g.k = "dummy" -> [l |-> F0, r |-> F0, o |-> F0, m |-> F0, q |-> F0]
GateValue(g) ==
  LET s == Selectors(g) a == g.w[1].v b == g.w[2].v c == g.w[3].v IN
  Sum(<<FMul(P, s.l, a), FMul(P, s.r, b), FMul(P, s.o, c), Prod(<<s.m, a, b>>), s.q, FNeg(P, g.pi)>>)
GateHolds(g) == GateValue(g) = F0

Cell(j, i) == <<j, i>>
Cells(n) == (0 .. 2) \X (0 .. n - 1)
(* Where the wiring sends a cell; padding cells stay where they are. *)
Sent(gates, x) == IF x[2] < Len(gates) THEN LET w == gates[x[2] + 1].w[x[1] + 1] IN <<w.c, w.r>> ELSE x
ValueAt(gates, x) == IF x[2] < Len(gates) THEN gates[x[2] + 1].w[x[1] + 1].v ELSE F0
WellFormed(gates, n) == \A x \in Cells(n) : Sent(gates, x) \in Cells(n)
IsPermutation(gates, n) == Cardinality({Sent(gates, x) : x \in Cells(n)}) = 3 * n
CopiesHold(gates, n) == \A x \in Cells(n) : ValueAt(gates, x) = ValueAt(gates, Sent(gates, x))
Satisfied(gates, n) == (\A i \in 1 .. Len(gates) : GateHolds(gates[i])) /\ CopiesHold(gates, n)

----------------------------------------------------------------------------
(* Compilation: n rows on the powers of w, columns on the cosets 1, k1, k2. *)

Root(w, i) == FPow(P, w, i)
PrimitiveRoot(w, n) == IF n = 1 THEN w = F1 ELSE FPow(P, w, n) = F1 /\ FPow(P, w, n \div 2) = FM1
CosetsDisjoint(k1, k2, n) ==
  /\ k1 # F0 /\ k2 # F0 /\ FPow(P, k1, n) # F1 /\ FPow(P, k2, n) # F1 /\ FPow(P, k1, n) # FPow(P, k2, n)
Name(x, w, k1, k2) == FMul(P, Root(w, x[2]), CASE x[1] = 0 -> F1 [] x[1] = 1 -> k1 [] x[1] = 2 -> k2)

Column(gates, n, h(_)) == [i \in 1 .. n |-> IF i <= Len(gates) THEN h(gates[i]) ELSE F0]
SigmaColumn(gates, n, w, k1, k2, j) == [i \in 1 .. n |-> Name(Sent(gates, <<j, i - 1>>), w, k1, k2)]
(* The table of a compiled circuit. *)
Table(gates, n, w, k1, k2) ==
  [a |-> Column(gates, n, LAMBDA g : g.w[1].v), b |-> Column(gates, n, LAMBDA g : g.w[2].v), c |-> Column(gates, n, LAMBDA g : g.w[3].v),
   m |-> Column(gates, n, LAMBDA g : Selectors(g).m), l |-> Column(gates, n, LAMBDA g : Selectors(g).l),
   r |-> Column(gates, n, LAMBDA g : Selectors(g).r), o |-> Column(gates, n, LAMBDA g : Selectors(g).o),
   q |-> Column(gates, n, LAMBDA g : Selectors(g).q), pi |-> Column(gates, n, LAMBDA g : FNeg(P, g.pi)),
   s1 |-> SigmaColumn(gates, n, w, k1, k2, 0), s2 |-> SigmaColumn(gates, n, w, k1, k2, 1), s3 |-> SigmaColumn(gates, n, w, k1, k2, 2)]
Cols == {"a", "b", "c", "m", "l", "r", "o", "q", "pi", "s1", "s2", "s3"}
Interpolated(t, w) == [x \in Cols |-> PInterp(P, t[x], w)]
(* What both parties hold. *)
Compiled(gates, n, w, k1, k2) ==
  [gates |-> gates, n |-> n, w |-> w, k1 |-> k1, k2 |-> k2, f |-> Interpolated(Table(gates, n, w, k1, k2), w)]

ComOf(s, f) == GMul(Grp, PEval(P, f, s), GGen(Grp))
(* The statement, as the transcript begins with it. *)
StatementOrder == <<"m", "l", "r", "o", "q", "s1", "s2", "s3", "pi">>
StatementComs(st, s) == [i \in 1 .. Len(StatementOrder) |-> ComOf(s, st.f[StatementOrder[i]])]
=============================================================================
