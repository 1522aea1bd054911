------------------------------- MODULE MCMask -------------------------------
(* Why the masks of P09 are as long as they are: what a proof shows of a masked polynomial -- its value at    *)
(* the secret, in the commitment, and its value where it is opened -- is spread evenly over all pairs of       *)
(* values, whatever the polynomial is; with a shorter mask it is not.  And the mask is what the trace          *)
(* specification takes it to be.                                                                             *)
EXTENDS Plonk, TLC
CONSTANTS Sizes, Degrees
F == 0 .. P - 1
(* st holds the case: [n, f, s, x], f a polynomial of fewer than n coefficients *)
Init ==
  /\ \E n \in Sizes : \E f \in [1 .. n -> F], s, x \in F :
       /\ FPow(P, s, n) # F1 /\ FPow(P, x, n) # F1 /\ s # x
       /\ st = [n |-> n, f |-> PTrim(P, f), s |-> s, x |-> x]
  /\ secret = 0 /\ gates = <<>> /\ step = "mask" /\ pr = <<>> /\ pf = <<>> /\ ch = <<>>
Next == FALSE /\ UNCHANGED pvars
Shows(m) == <<PEval(P, Masked(st.f, st.n, m), st.s), PEval(P, Masked(st.f, st.n, m), st.x)>>
Views(d) == {Shows(m) : m \in [1 .. d -> F]}
(* two coefficients: every pair of values exactly once *)
Hides == Cardinality(Views(2)) = P * P
(* one: P of the P * P pairs, others for another polynomial *)
OneIsTooFew == Cardinality(Views(1)) = P
(* three: every pair, each P times *)
HidesWithOneToSpare == 3 \in Degrees => \A v \in F \X F : Cardinality({m \in [1 .. 3 -> F] : Shows(m) = v}) = P
Told == \A d \in Degrees : \A m \in [1 .. d -> F] : \E q \in {MaskOf(Masked(st.f, st.n, m), st.f, st.n)} : q[1] = PTrim(P, m) /\ q[2] = <<>>
=============================================================================
