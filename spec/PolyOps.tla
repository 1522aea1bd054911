------------------------------ MODULE PolyOps ------------------------------
(* Univariate polynomials over the integers modulo p, as sequences of coefficients, lowest first, without   *)
(* zeros at the end (the zero polynomial is the empty sequence).  Replaced by PolyOps.java in TLC.          *)
EXTENDS Integers, Sequences, FieldOps

Coef(p, f, i) == IF i \in 1 .. Len(f) THEN f[i] ELSE FE(p, 0)
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE PTrim(_, _)
PTrim(p, f) == IF f = <<>> \/ f[Len(f)] # FE(p, 0) THEN f ELSE PTrim(p, SubSeq(f, 1, Len(f) - 1))

RECURSIVE PEval(_, _, _)
PEval(p, f, x) == IF f = <<>> THEN FE(p, 0) ELSE FAdd(p, f[1], FMul(p, x, PEval(p, Tail(f), x)))

PAdd(p, f, g) == PTrim(p, [i \in 1 .. Max2(Len(f), Len(g)) |-> FAdd(p, Coef(p, f, i), Coef(p, g, i))])
PScale(p, c, f) == PTrim(p, [i \in 1 .. Len(f) |-> FMul(p, c, f[i])])

RECURSIVE FSumTo(_, _, _)
FSumTo(p, h, n) == IF n = 0 THEN FE(p, 0) ELSE FAdd(p, h[n], FSumTo(p, h, n - 1))

PMul(p, f, g) ==
  IF f = <<>> \/ g = <<>> THEN <<>>
  ELSE PTrim(p, [k \in 1 .. Len(f) + Len(g) - 1 |->
         FSumTo(p, [i \in 1 .. Len(f) |-> FMul(p, f[i], Coef(p, g, k - i + 1))], Len(f))])

(* (f - f(z)) / (X - z) *)
PQuotient(p, f, z) ==
  IF Len(f) <= 1 THEN <<>>
  ELSE PTrim(p, [i \in 1 .. Len(f) - 1 |-> PEval(p, SubSeq(f, i + 1, Len(f)), z)])

(* f at shift * w^i, i = 0 .. n-1 *)
PEvalCoset(p, f, shift, w, n) == [i \in 1 .. n |-> PEval(p, f, FMul(p, shift, FPow(p, w, i - 1)))]

(* The polynomial of degree < n with values vals at the powers of w, a primitive n-th root of unity. *)
PInterp(p, vals, w) ==
  LET n == Len(vals)
      wi == FInv(p, w)
  IN  PTrim(p, [j \in 1 .. n |-> FMul(p, FInv(p, FE(p, n)), PEval(p, vals, FPow(p, wi, j - 1)))])

(* <<quotient, remainder>> of f by X^n - 1 *)
RECURSIVE PDivVanish(_, _, _)
PDivVanish(p, f, n) ==
  IF Len(f) <= n THEN <<<<>>, PTrim(p, f)>>
  ELSE LET d == Len(f)
           g == [i \in 1 .. d - 1 |-> IF i = d - n THEN FAdd(p, f[i], f[d]) ELSE f[i]]
           r == PDivVanish(p, g, n)
       IN  <<PAdd(p, r[1], [i \in 1 .. d - n |-> IF i = d - n THEN f[d] ELSE FE(p, 0)]), r[2]>>

(* Even part plus c times odd part. *)
PFold(p, f, c) ==
  PTrim(p, [i \in 1 .. (Len(f) + 1) \div 2 |-> FAdd(p, Coef(p, f, 2 * i - 1), FMul(p, c, Coef(p, f, 2 * i)))])

PSub(p, f, g) == PAdd(p, f, PScale(p, FNeg(p, FE(p, 1)), g))
=============================================================================
