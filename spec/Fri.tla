--------------------------------- MODULE Fri ---------------------------------
(* The FRI protocol over the integers modulo p: the prover commits to the values of a polynomial on a coset, *)
(* folds it in half with a challenge, and so on down to a constant; the verifier then checks some positions. *)
EXTENDS Integers, Sequences, FieldOps, PolyOps, Merkle

VARIABLES phase,    \* "idle", "commit", "challenge", "query", "done"
          fp,       \* the field
          poly,     \* what is left of the polynomial
          shift, w, size,  \* the current coset: shift * <w>, of that size
          layers,   \* values committed so far, one sequence per layer
          roots,    \* their commitments
          chals,    \* challenges so far
          const,    \* the last fold
          positions,\* positions to open
          domain    \* size of the first layer's coset
fvars == <<phase, fp, poly, shift, w, size, layers, roots, chals, const, positions, domain>>

(* The evaluation domain for a polynomial of `len` coefficients. *)
DomainSize(len, blowup) == NextPow2(len * blowup)
NumLayers(n) == Log2(n)
PrimitiveRoot(p, x, n) ==
  IF n = 1 THEN x = FE(p, 1) ELSE FPow(p, x, n) = FE(p, 1) /\ FPow(p, x, n \div 2) = FNeg(p, FE(p, 1))

(* One fold, of a polynomial and of its values: even part plus r times odd part. *)
FoldPoint(p, r, x, e, s) ==   \* e, s the values at x and -x
  LET xi == FInv(p, FAdd(p, x, x)) IN
  FAdd(p, FMul(p, FMul(p, FAdd(p, e, s), x), xi), FMul(p, FMul(p, r, FSub(p, e, s)), xi))
PointAt(p, sh, wn, i) == FMul(p, sh, FPow(p, wn, i))
FoldValues(p, r, sh, wn, vals) ==
  [i \in 1 .. Len(vals) \div 2 |-> FoldPoint(p, r, PointAt(p, sh, wn, i - 1), vals[i], vals[i + Len(vals) \div 2])]

StartProof(p, f, blowup, gen, wn) ==
  /\ phase' = "commit" /\ fp' = p /\ poly' = PTrim(p, f) /\ shift' = gen /\ w' = wn
  /\ domain' = DomainSize(Len(PTrim(p, f)), blowup) /\ size' = domain'
  /\ layers' = <<>> /\ roots' = <<>> /\ chals' = <<>> /\ const' = FE(p, 0) /\ positions' = <<>>

LayerValues == PEvalCoset(fp, poly, shift, w, size)
CommitLayer(root) ==
  /\ phase = "commit" /\ size > 1
  /\ layers' = Append(layers, LayerValues) /\ roots' = Append(roots, root) /\ phase' = "challenge"
  /\ UNCHANGED <<fp, poly, shift, w, size, chals, const, positions, domain>>

DrawChallenge(r) ==
  /\ phase = "challenge"
  /\ chals' = Append(chals, r) /\ poly' = PFold(fp, poly, r)
  /\ shift' = FMul(fp, shift, shift) /\ w' = FMul(fp, w, w) /\ size' = size \div 2 /\ phase' = "commit"
  /\ UNCHANGED <<fp, layers, roots, const, positions, domain>>

LastFold == Coef(fp, poly, 1)
SendConst(c) ==
  /\ phase = "commit" /\ size = 1
  /\ const' = c /\ phase' = "query"
  /\ UNCHANGED <<fp, poly, shift, w, size, layers, roots, chals, positions, domain>>

(* What the transcript has been fed when a challenge or the positions are drawn. *)
FedAtChallenge == <<FE(fp, 0)>> \o roots
FedAtPositions == <<FE(fp, 0)>> \o roots \o <<const>>

DrawPositions(ps) ==
  /\ phase = "query" /\ positions' = ps /\ phase' = "done"
  /\ UNCHANGED <<fp, poly, shift, w, size, layers, roots, chals, const, domain>>

(* Where position q looks in the layer of size n, and its mirror. *)
IndexIn(q, n) == q % n
MirrorIn(q, n) == ((q % n) + (n \div 2)) % n

RECURSIVE SizeOf(_, _)
SizeOf(n, i) == IF i = 1 THEN n ELSE SizeOf(n, i - 1) \div 2
RECURSIVE SquareTimes(_, _, _)
SquareTimes(p, x, k) == IF k = 0 THEN x ELSE SquareTimes(p, FMul(p, x, x), k - 1)

(* The verifier on one query: es, ss the opened values per layer, c the constant. *)
QueryFolds(p, gen, wn, n, rs, c, q, es, ss) ==
  \A i \in 1 .. Len(es) :
    LET x == PointAt(p, SquareTimes(p, gen, i - 1), SquareTimes(p, wn, i - 1), IndexIn(q, SizeOf(n, i)))
        y == FoldPoint(p, rs[i], x, es[i], ss[i])
    IN  y = IF i = Len(es) THEN c ELSE es[i + 1]
=============================================================================
