---------------------------- MODULE TraceParser -----------------------------
(* Recorded readings of texts by both parsers, and proofs of what was read, against Parser.                   *)
EXTENDS Parser, TraceBase
VARIABLES sc, l,
          comp     \* what the prover's parser made of the last text, compiled; <<>> if it refused
tvars == <<sc, l, comp>>
S == Trace[sc]
E == S.events[l]
Ok(res) == Has(res, "ok")
TraceInit == sc \in 1 .. Len(Trace) /\ l = 1 /\ comp = <<>>
Is(op) == l <= Len(S.events) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED sc
Chk(prop, what, ok) == Expect(prop, S.id, l, what, ok)
ChkIs(prop, what, got, want) == ExpectIs(prop, S.id, l, what, got, want)

(* Witnesses: a sequence of <<name, value>>; later ones count. *)
RECURSIVE ValOf(_, _)
ValOf(w, acc) == IF w = <<>> THEN acc ELSE ValOf(Tail(w), [n \in DOMAIN acc \cup {Fold(w[1][1])} |-> IF n = Fold(w[1][1]) THEN w[1][2] ELSE acc[n]])
Val(w) == ValOf(w, [n \in {} |-> Zero])

(* The prover's parser: read and compiled; then proved and verified if E has a verdict. *)
TParse ==
  /\ Is("parse")
  /\ \E e \in {ReadEquation(E.text)} : \E val \in {Val(E.wit)} :
     LET known == e.ok /\ Names(e) \subseteq DOMAIN val IN
     IF known
     THEN /\ Chk("P06", "an equation is read", Ok(E.res))
          /\ Has(E, "verdict") => ChkIs("P06", "accepted exactly if the equation holds", E.verdict = [ok |-> TRUE], Holds(e, val))
          /\ comp' = IF Ok(E.res) THEN <<E.res.ok>> ELSE <<>>
     ELSE /\ Chk("P06", IF e.ok THEN "a name without a value is refused" ELSE "other text is refused", ~ Ok(E.res))
          /\ comp' = <<>>

----------------------------------------------------------------------------
(* P07.  Rows of the compiled circuit over the cycles of its wiring; the cells of a cycle are one class, named *)
(* by its least cell. *)
PackCell(x) == x[1] * 4096 + x[2]
CellsOf(c) == (0 .. 2) \X (0 .. c.n - 1)
RECURSIVE OrbitFrom(_, _, _, _)
OrbitFrom(s, x, y, acc) == IF y = x THEN acc ELSE OrbitFrom(s, x, s[y], acc \cup {y})
LeastOf(cells) == CHOOSE x \in cells : \A y \in cells : PackCell(x) <= PackCell(y)
(* s: where the permutation sends each cell *)
ClassMap(s) == [x \in DOMAIN s |-> LeastOf(OrbitFrom(s, x, s[x], {x}))]
RowsOf(c, t, cls) ==
  [i \in 1 .. c.n |-> [l |-> t.l[i], r |-> t.r[i], o |-> t.o[i], m |-> t.m[i], q |-> FAdd(P, t.q[i], t.pi[i]),
                       w |-> <<cls[<<0, i - 1>>], cls[<<1, i - 1>>], cls[<<2, i - 1>>]>>]]
(* Solving for one random valuation rho; classes are told to carry a name by the honest values, which are random. *)
RECURSIVE HintsFor(_, _, _, _)
HintsFor(ns, val, rho, carried) ==
  IF ns = {} THEN <<>>
  ELSE LET n == CHOOSE n \in ns : TRUE IN
       << [cls |-> {x \in DOMAIN carried : carried[x] = val[n]}, val |-> rho[n]] >> \o HintsFor(ns \ {n}, val, rho, carried)
TForced ==
  /\ Is("forced")
  /\ comp # <<>>
  /\ \E e \in {ReadEquation(E.text)} : \E val \in {Val(E.wit)} : \E rho \in {Val(E.rho)} : \E c \in {comp[1]} :
     \E t \in {[x \in Cols |-> PEvalCoset(P, c.f[x], F1, c.w, c.n)]} :
     \E name \in {[x \in CellsOf(c) |-> Name(x, c.w, c.k1, c.k2)]} :
     LET images == {t.s1[i] : i \in 1 .. c.n} \cup {t.s2[i] : i \in 1 .. c.n} \cup {t.s3[i] : i \in 1 .. c.n}
         names == {name[x] : x \in CellsOf(c)}
     IN
     IF ~ (e.ok /\ Names(e) \subseteq DOMAIN val \cap DOMAIN rho) \/ images # names \/ Cardinality(names) # 3 * c.n
     THEN Chk("P07", "the wiring is a permutation", images = names /\ Cardinality(names) = 3 * c.n)
     ELSE
     \E s \in {[x \in CellsOf(c) |-> CHOOSE y \in CellsOf(c) :
                   name[y] = (CASE x[1] = 0 -> t.s1[x[2] + 1] [] x[1] = 1 -> t.s2[x[2] + 1] [] x[1] = 2 -> t.s3[x[2] + 1])]} :
     \E cls \in {ClassMap(s)} :
     \E rows \in {RowsOf(c, t, cls)} :
     \E carried \in {[x \in {cls[y] : y \in CellsOf(c)} |-> CASE x[1] = 0 -> t.a[x[2] + 1] [] x[1] = 1 -> t.b[x[2] + 1] [] x[1] = 2 -> t.c[x[2] + 1]]} :
     \E sol \in {Solve(rows, HintsFor(Names(e), val, rho, carried))} :
     \E d \in {Difference(e, rho)} :
     LET vals == {sol.k[x] : x \in DOMAIN sol.k \cap Relevant(rows)} IN
     /\ Chk("P07", "every use of a name, number and intermediate result is wired to the others", sol.open = {})
     /\ IF d = Zero THEN Chk("P07", "the constraints hold where the equation does", Broken(rows, sol.k) = {})
        ELSE IF Broken(rows, sol.k) # {} THEN TRUE
        ELSE IF d \in vals \/ FNeg(P, d) \in vals THEN Chk("P07", "the output of the last gate is constrained to zero", FALSE)
        ELSE sol.open = {} => Chk("P07", "the circuit computes the difference of the sides", FALSE)
  /\ UNCHANGED comp
TForcedNot == Is("forced") /\ comp = <<>> /\ UNCHANGED comp

----------------------------------------------------------------------------
(* P08: the verifier's preprocessing of the same text; the secret of the setup is known. *)
ComAt(f) == ComOf(S.secret, f)
TCpi ==
  /\ Is("cpi")
  /\ \E e \in {ReadEquation(E.text)} :
     /\ Chk("P08", IF e.ok THEN "an equation is preprocessed" ELSE "other text is not preprocessed", Ok(E.res) = e.ok)
     /\ (E.named /\ comp = <<>>) => Chk("P08", "what the prover's parser refuses is not preprocessed", ~ Ok(E.res))
     /\ (Ok(E.res) /\ comp # <<>>) =>
          LET p == E.res.ok c == comp[1] IN
          /\ ChkIs("P08", "size", p.n, c.n) /\ ChkIs("P08", "shifts", <<p.k1, p.k2>>, <<c.k1, c.k2>>)
          /\ \A x \in {"l", "r", "o", "m", "q", "s1", "s2", "s3"} : ChkIs("P08", "commitment " \o x, p.f[x], ComAt(c.f[x]))
          /\ ChkIs("P08", "public inputs", PTrim(P, p.f.pi), PTrim(P, c.f.pi))
  /\ UNCHANGED comp
(* A circuit built by hand on both sides (and padding gates on the verifier's). *)
Twins == {"l", "r", "o", "m", "q", "pi", "s1", "s2", "s3"}
TTwin ==
  /\ Is("twin")
  /\ Chk("P08", "both circuits compile or neither", Ok(E.prover) = Ok(E.cpi))
  /\ (Ok(E.prover) /\ Ok(E.cpi)) =>
       LET c == E.prover.ok p == E.cpi.ok IN
       /\ ChkIs("P08", "size", p.n, c.n) /\ ChkIs("P08", "shifts", <<p.k1, p.k2>>, <<c.k1, c.k2>>)
       /\ \A x \in Twins : ChkIs("P08", "polynomial " \o x, PTrim(P, p.f[x]), PTrim(P, c.f[x]))
  /\ UNCHANGED comp
(* Padding gates in between: the rows of the specification. *)
TDummies ==
  /\ Is("dummies")
  /\ Chk("P08", "a circuit with padding gates compiles", Ok(E.cpi))
  /\ Ok(E.cpi) =>
       LET p == E.cpi.ok IN
       /\ Chk("P08", "size", IsPow2(p.n) /\ p.n >= Len(E.gates))
       /\ \E t \in {Table(E.gates, p.n, p.w, p.k1, p.k2)} :
          \A x \in Twins : ChkIs("P08", "column " \o x, PEvalCoset(P, p.f[x], F1, p.w, p.n), t[x])
  /\ UNCHANGED comp

TCrash == Is("crash") /\ (\A p \in {"P06", "P07", "P08"} : Report(p, S.id, l, E.why)) /\ UNCHANGED comp
TraceNext == TParse \/ TForced \/ TForcedNot \/ TCpi \/ TTwin \/ TDummies \/ TCrash
Prime == "52435875175126190479447740508185965837690552500527637822603658699938581184513"
=============================================================================
