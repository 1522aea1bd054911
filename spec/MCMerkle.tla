------------------------------ MODULE MCMerkle ------------------------------
(* With hashes that never collide: every proof verifies, and no proof with the tree's root and depth but    *)
(* another leaf, position or path does.                                                                     *)
EXTENDS Merkle, TLC
CONSTANTS Vals, MaxLeaves
HL(x) == <<x>>
HN(a, b) == <<a, b>>
VARIABLES leaves, stage
Init == leaves \in UNION {[1 .. n -> Vals] : n \in 1 .. MaxLeaves} /\ stage = 0
Next == stage = 0 /\ stage' = 1 /\ UNCHANGED leaves

P0 == Padded(leaves, 0)
L0 == Levels(HL, HN, P0)
Proofs == {ProofOf(L0, P0, j) : j \in 0 .. Len(P0) - 1}
Shape == IsPow2(Len(P0)) /\ Len(P0) < 2 * Len(leaves) /\ Len(L0) = Log2(Len(P0)) + 1 /\ \A i \in 1 .. Len(leaves) : P0[i] = leaves[i]
EveryLeafProvable == \A pr \in Proofs : ProofValid(HL, HN, pr) /\ Len(pr.path) = Log2(Len(P0))
Altered(pr) ==
  {[pr EXCEPT !.leaf = x] : x \in Vals \ {pr.leaf}}
  \cup {[pr EXCEPT !.path[k] = x] : k \in 1 .. Len(pr.path), x \in {HL(v) : v \in Vals} \cup {n \in {L0[m][1] : m \in 1 .. Len(L0)} : TRUE}}
  \cup {[pr EXCEPT !.root = x] : x \in {L0[m][1] : m \in 1 .. Len(L0)} \cup {HL(7)}}
AlteredFails == \A pr \in Proofs : \A q \in Altered(pr) : q # pr => ~ ProofValid(HL, HN, q)
(* Moving a proof to another position only works where the tree says the same there. *)
MovedFails == \A pr \in Proofs : \A j \in 0 .. Len(P0) - 1 :
   LET q == [pr EXCEPT !.index = j] IN ProofValid(HL, HN, q) => q \in Proofs
RootsDiffer == \A other \in [1 .. Len(P0) -> Vals] : RootOf(Levels(HL, HN, other)) = RootOf(L0) => other = P0
=============================================================================
