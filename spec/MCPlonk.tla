------------------------------ MODULE MCPlonk ------------------------------
(* Every circuit built from a pool of gates, wired in every way the pool allows, and every run of the prover *)
(* over chosen challenges and masks.                                                                        *)
EXTENDS Plonk, TLC
CONSTANTS Sizes,     \* domain sizes
          MaxGates, Vals, PIs, Targets, Betas, Others, Masks, Secrets, KindsUsed

K1 == 2
(* the first shift beyond the first that is in neither of the other cosets *)
K2(n) == CHOOSE k \in 1 .. P - 1 : CosetsDisjoint(K1, k, n) /\ \A j \in 1 .. k - 1 : ~ CosetsDisjoint(K1, j, n)
W(n) == CHOOSE x \in 1 .. P - 1 : PrimitiveRoot(x, n)

Init == secret \in Secrets /\ gates = <<>> /\ st = [n |-> 0] /\ step = "build" /\ pr = [a |-> <<>>] /\ pf = [a |-> 0] /\ ch = [beta |-> 0]
Wires == {[c |-> t[1], r |-> t[2], v |-> v] : t \in Targets, v \in Vals}
Build == Len(gates) < MaxGates /\ \E k \in KindsUsed, w \in [1 .. 3 -> Wires], pi \in PIs : AddGate([k |-> k, w |-> w, pi |-> pi])
Fit == LET n == Pow2AtLeast(Len(gates)) IN
       /\ n \in Sizes /\ (WellFormed(gates, n) => IsPermutation(gates, n)) /\ Compile(n, W(n), K1, K2(n))
Run ==
  \/ \E m \in Masks : Round1(m, <<m[2], m[1]>>, <<1, m[1]>>)
  \/ \E b \in Betas, g \in Betas, m \in Masks : Round2(b, g, <<m[1], 1, m[2]>>)
  \/ \E x \in Others : Round3(x) \/ Round4(x) \/ Round5(x) \/ Finish(x)
(* Whole circuits of two gates: every assignment of two values, some wirings. *)
Wirings == {
  [x \in Cells(2) |-> x],
  [x \in Cells(2) |-> IF x = <<2, 0>> THEN <<0, 1>> ELSE IF x = <<0, 1>> THEN <<2, 0>> ELSE x],
  [x \in Cells(2) |-> <<(x[1] + 1) % 3, x[2]>>],
  [x \in Cells(2) |-> IF x[1] = 2 THEN <<0, 1 - x[2]>> ELSE <<x[1] + 1, x[2]>>]}
PairKinds == {<<"add", "mul">>, <<"mul", "const">>}
TwoGates == {[i \in 1 .. 2 |-> [k |-> ks[i], pi |-> IF i = 1 THEN pi ELSE 0, w |-> [j \in 1 .. 3 |-> [c |-> wr[<<j - 1, i - 1>>][1], r |-> wr[<<j - 1, i - 1>>][2], v |-> vs[<<j - 1, i - 1>>]]]]] :
               ks \in PairKinds, pi \in PIs, wr \in Wirings, vs \in [Cells(2) -> Vals]}
BuildAll == MaxGates = 0 /\ step = "build" /\ gates = <<>> /\ gates' \in TwoGates /\ UNCHANGED <<secret, st, step, pr, pf, ch>>
Next == Build \/ BuildAll \/ Fit \/ Run

(* With all challenges in one state: soundness of the permutation argument by counting (P02).  A wiring that *)
(* joins different values closes the product for no more than 3n values of gamma, for any beta that separates *)
(* the names.                                                                                               *)
ClosesFor(beta) == {g \in 0 .. P - 1 : ~ Unlucky(st, beta, g) /\ AccumulatorCloses(st, beta, g)}
Luck(beta) == {g \in 0 .. P - 1 : Unlucky(st, beta, g)}
PermutationSound ==
  step = "compiled" =>
    IF CopiesHold(gates, st.n) THEN \A b \in 0 .. P - 1 : ClosesFor(b) \cup Luck(b) = 0 .. P - 1
    ELSE Cardinality({b \in 0 .. P - 1 : Cardinality(ClosesFor(b)) > 3 * st.n}) <= 3 * st.n
(* Altering one message of an accepted proof (the challenges before it stay) is rejected except for a few    *)
(* values of the challenges that come after (P03, P04).                                                     *)
Alter(x, d) == [pf EXCEPT ![x] = FAdd(P, @, d)]
AlteredRejected ==
  step = "proof" =>
    /\ \A d \in 1 .. P - 1 : ~ Verdict(st, secret, Alter("u", d), ch)
    /\ \A x \in {"a", "b", "c", "tlo"}, d \in {1, P - 1} : (FPow(P, ch.zeta, st.n) # 1 /\ ch.v # 0) => ~ Verdict(st, secret, Alter(x, d), ch)
    /\ \A x \in {"bs2", "bzw", "ba"}, d \in {1} :
         Cardinality({v \in 0 .. P - 1 : \A u \in 0 .. P - 1 : Verdict(st, secret, [Alter(x, d) EXCEPT !.u = u], [ch EXCEPT !.v = v, !.u = u])}) <= 5

OneRow == {<<0, 0>>, <<1, 0>>, <<2, 0>>}
TwoRows == OneRow \cup {<<0, 1>>, <<1, 1>>, <<2, 1>>}
SomeMasks == {<<0, 0>>, <<3, 1>>}
=============================================================================
