---------------------------- MODULE MCFriDegree ----------------------------
(* What folding says about the degree.  All functions on the coset; Rounds folds, then a constant is sent   *)
(* and every position is checked.  With Rounds < log2(n) a function that is no polynomial of degree          *)
(* < 2^Rounds passes for few challenges only; with Rounds = log2(n), which is what the code does, every       *)
(* function passes (known finding of F04).                                                                  *)
EXTENDS Fri, TLC, FiniteSets
CONSTANTS P, N, Gen, Rounds
VARIABLES fn
Elems == 0 .. P - 1
Root(n) == CHOOSE x \in 1 .. P - 1 : PrimitiveRoot(P, x, n)
Init == /\ fn \in [1 .. N -> Elems]
        /\ phase = "idle" /\ fp = P /\ poly = <<>> /\ shift = 0 /\ w = 0 /\ size = 0 /\ layers = <<>> /\ roots = <<>>
        /\ chals = <<>> /\ const = 0 /\ positions = <<>> /\ domain = 0
Next == FALSE /\ UNCHANGED <<fn, fvars>>

RECURSIVE FoldAll(_, _, _, _)
FoldAll(vals, rs, sh, wn) == IF rs = <<>> THEN vals ELSE FoldAll(FoldValues(P, rs[1], sh, wn, vals), Tail(rs), FMul(P, sh, sh), FMul(P, wn, wn))
Passes(rs) == LET v == FoldAll(fn, rs, Gen, Root(N)) IN \A i \in 1 .. Len(v) : v[i] = v[1]
(* degree of the function, via its values on the subgroup: scaling the argument keeps the degree *)
LowDegree == Len(PInterp(P, fn, Root(N))) <= 2 ^ Rounds
Good == {rs \in [1 .. Rounds -> Elems] : Passes(rs)}
All == P ^ Rounds
DegreeTested == IF LowDegree THEN Cardinality(Good) = All ELSE Cardinality(Good) * P <= Rounds * All
Vacuous == Cardinality(Good) = All
=============================================================================
