------------------------------ MODULE FieldOps ------------------------------
(* Arithmetic modulo a prime p.  The definitions below are the meaning of the operators; TLC replaces them  *)
(* by FieldOps.java, which computes the same on integers and, when p is a decimal string, on decimal        *)
(* strings, so that one specification runs over small fields (model checking) and over the fields of the    *)
(* implementation (trace checking).  MCOps.tla checks that the replacement agrees with these definitions.   *)
EXTENDS Integers

FE(p, n)      == n % p
FAdd(p, a, b) == (a + b) % p
FSub(p, a, b) == (a - b) % p
FNeg(p, a)    == (0 - a) % p
FMul(p, a, b) == (a * b) % p

RECURSIVE FPow(_, _, _)
FPow(p, a, n) == IF n = 0 THEN 1 % p ELSE FMul(p, a, FPow(p, a, n - 1))

FInv(p, a) == IF a % p = 0 THEN 0 ELSE CHOOSE b \in 0 .. p - 1 : FMul(p, a, b) = 1

FIsElem(p, a) == a \in 0 .. p - 1

(* The low 64 bits of the canonical representative, reduced modulo m. *)
FLow64Mod(p, a, m) == (a % p) % m
=============================================================================
