------------------------------ MODULE GroupOps ------------------------------
(* A group of prime order.  For model checking a group is an integer r and stands for the integers modulo r *)
(* with generator 1 (a group with visible discrete logarithms).  For trace checking GroupOps.java also      *)
(* accepts "G1" and "G2", the groups of BLS12-381 with affine points written as strings.                    *)
EXTENDS Integers, Sequences, FieldOps

GOrder(g)     == g
GZero(g)      == 0
GGen(g)       == 1
GAdd(g, a, b) == FAdd(g, a, b)
GNeg(g, a)    == FNeg(g, a)
GMul(g, k, a) == FMul(g, k, a)
GIsElem(g, a) == FIsElem(g, a)

RECURSIVE GMsm(_, _, _)
GMsm(g, ks, as) == IF ks = <<>> THEN GZero(g) ELSE GAdd(g, GMul(g, ks[1], as[1]), GMsm(g, Tail(ks), Tail(as)))
=============================================================================
