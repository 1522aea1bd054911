------------------------------- MODULE Merkle -------------------------------
(* Binary hash trees over a list of leaves.  The hashes HL (of a leaf) and HN (of two nodes) are parameters. *)
EXTENDS Integers, Sequences

RECURSIVE NextPow2From(_, _)
NextPow2From(n, k) == IF k >= n THEN k ELSE NextPow2From(n, 2 * k)
NextPow2(n) == NextPow2From(n, 1)
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
IsPow2(n) == n >= 1 /\ NextPow2(n) = n

Padded(leaves, zero) == [i \in 1 .. NextPow2(Len(leaves)) |-> IF i <= Len(leaves) THEN leaves[i] ELSE zero]

(* The levels of the tree, leaves' hashes first. *)
RECURSIVE LevelsFrom(_, _)
LevelsFrom(HN(_, _), level) ==
  IF Len(level) = 1 THEN <<level>>
  ELSE <<level>> \o LevelsFrom(HN, [i \in 1 .. Len(level) \div 2 |-> HN(level[2 * i - 1], level[2 * i])])
Levels(HL(_), HN(_, _), padded) == LevelsFrom(HN, [i \in 1 .. Len(padded) |-> HL(padded[i])])
RootOf(levels) == levels[Len(levels)][1]

(* The other child, for a position (from 0) in a level. *)
Sibling(j) == IF j % 2 = 0 THEN j + 1 ELSE j - 1
RECURSIVE PathFrom(_, _, _)
PathFrom(levels, k, j) == IF k = Len(levels) THEN <<>> ELSE <<levels[k][Sibling(j) + 1]>> \o PathFrom(levels, k + 1, j \div 2)
Path(levels, j) == PathFrom(levels, 1, j)

ProofOf(levels, padded, j) == [index |-> j, leaf |-> padded[j + 1], path |-> Path(levels, j), root |-> RootOf(levels)]

(* Climbing from a leaf: which two nodes are hashed at each step. *)
Ordered(j, cur, sib) == IF j % 2 = 0 THEN <<cur, sib>> ELSE <<sib, cur>>
RECURSIVE Climb(_, _, _, _)
Climb(HN(_, _), j, cur, path) ==
  IF path = <<>> THEN cur ELSE LET o == Ordered(j, cur, path[1]) IN Climb(HN, j \div 2, HN(o[1], o[2]), Tail(path))
ProofValid(HL(_), HN(_, _), pr) == Climb(HN, pr.index, HL(pr.leaf), pr.path) = pr.root
=============================================================================
