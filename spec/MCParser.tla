------------------------------ MODULE MCParser ------------------------------
(* Model checking of Parser: reading undoes writing, circuits say what equations mean, and what Solve says a   *)
(* system of rows forces is what it forces, also when a wire of it is cut.                                    *)
EXTENDS Parser, TLC
CONSTANTS Factors, RightFactors, MaxTerms, MaxFactors,
          Cut,       \* also cut each wire of each circuit
          MaxCells   \* circuits of at most so many cells that matter are tried with every assignment
VARIABLES e, cut
mvars == <<e, cut>>

v(n, s, p) == [neg |-> s, name |-> n, num |-> 0, pow |-> p]
c(n, s, p) == [neg |-> s, name |-> <<>>, num |-> n, pow |-> p]
X == <<"x">>
Y == <<"y", "1">>
FewFactors == {v(X, 0, 1), v(Y, 1, 1), c(2, 0, 1), v(X, 0, 2)}
TwoFactors == {v(X, 0, 1), c(2, 1, 1)}
ManyFactors == {v(X, s, p) : s \in {0, 1, 2}, p \in {0, 1, 2}} \cup {v(Y, s, 1) : s \in {0, 1}} \cup {c(n, s, p) : n \in {0, 1, 12}, s \in {0, 1}, p \in {1, 3}}

SeqsUpTo(S, n) == UNION {[1 .. k -> S] : k \in 1 .. n}
Terms == SeqsUpTo(Factors, MaxFactors)
Init == /\ e \in {[ok |-> TRUE, l |-> l, r |-> <<r>>] : l \in SeqsUpTo(Terms, MaxTerms), r \in RightFactors}
          /\ cut = <<>>
Next == /\ Cut /\ cut = <<>> /\ \E i \in 1 .. Len(CircuitOf(e).rows), j \in 1 .. 3 : cut' = <<i, j>>
          /\ UNCHANGED e
Spec == Init /\ [][Next]_mvars

T == WriteEquation(e)
ReadsBack == ReadEquation(T) = e
(* A blank anywhere changes nothing, unless it parts a word. *)
WithBlank(i) == SubSeq(T, 1, i) \o <<" ">> \o SubSeq(T, i + 1, Len(T))
BlanksVanish ==
  \A i \in 0 .. Len(T) :
    LET q == ReadEquation(WithBlank(i)) IN
    IF i \in 1 .. Len(T) - 1 /\ T[i] \in Word /\ T[i + 1] \in Word THEN ~ q.ok ELSE q = e
Capital(ch) == IF ch \in Set(Lower) THEN Upper[IndexIn(Lower, ch)] ELSE ch
CaseVanishes == ReadEquation([i \in 1 .. Len(T) |-> Capital(T[i])]) = e

(* The circuit, perhaps with one wire cut: the cell gets a class of its own. *)
Whole == CircuitOf(e)
Rows == IF cut = <<>> THEN Whole.rows ELSE [Whole.rows EXCEPT ![cut[1]].w[cut[2]] = <<"cut", @>>]
Out == LET x == Rows[Len(Rows)].w[3] IN x
ClassesOf(rows, n) == {x \in Relevant(rows) : x = <<"name", n>> \/ x = <<"cut", <<"name", n>> >>}
RECURSIVE HintSeq(_, _, _)
HintSeq(rows, ns, val) == IF ns = {} THEN <<>> ELSE LET n == CHOOSE n \in ns : TRUE IN <<[cls |-> ClassesOf(rows, n), val |-> val[n]]>> \o HintSeq(rows, ns \ {n}, val)
Vals(ns) == [ns -> 0 .. P - 1]
(* What TraceParser concludes from one random valuation is here concluded from all valuations. *)
SolvedWell(rows, out, val) ==
  \E s \in {Solve(rows, HintSeq(rows, Names(e), val))} :
    s.open = {} /\ Broken(rows, s.k) = {} /\ out \in DOMAIN s.k /\ s.k[out] = Difference(e, val)
Concludes(rows, out) == \A val \in Vals(Names(e)) : SolvedWell(rows, out, val)
CircuitSays == cut = <<>> => Concludes(Rows, Out)

(* All assignments. *)
HoldsFor(rows, k) == \A i \in 1 .. Len(rows) : RowValue(rows[i], At(k, rows[i].w[1], Zero, <<>>), At(k, rows[i].w[2], Zero, <<>>), At(k, rows[i].w[3], Zero, <<>>)) = Zero
Forced(rows, out) ==
  \A k \in [Relevant(rows) -> 0 .. P - 1] :
    (HoldsFor(rows, k) /\ k[out] = Zero) =>
      /\ \A n \in Names(e) : \A x, y \in ClassesOf(rows, n) : k[x] = k[y]
      /\ Holds(e, [n \in Names(e) |-> LET cs == ClassesOf(rows, n) IN IF cs = {} THEN Zero ELSE k[CHOOSE x \in cs : TRUE]])
Small == Cardinality(Relevant(Rows)) <= MaxCells
CircuitForces == (cut = <<>> /\ Small) => Forced(Rows, Out)
ConclusionRight == (Small /\ Concludes(Rows, Out)) => Forced(Rows, Out)
(* Every cut is seen, but for wires that matter to no row or that stand alone. *)
Alone(x) == Cardinality({<<i, j>> \in (1 .. Len(Whole.rows)) \X (1 .. 3) : Matters(Whole.rows[i], j) /\ Whole.rows[i].w[j] = x}) = 1
CutSeen == (cut # <<>> /\ Matters(Whole.rows[cut[1]], cut[2]) /\ ~ Alone(Whole.rows[cut[1]].w[cut[2]])) => (Concludes(Rows, Out) => Forced(Rows, Out))
=============================================================================
