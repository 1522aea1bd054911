------------------------------- MODULE Parser -------------------------------
(* Equations as text (plonk::parser and plonk::common_preprocessed_input::cpi_parser): what is read from a   *)
(* text, what it means, what circuit says it, and what a system of gates and wires forces.                   *)
(*                                                                                                          *)
(* A text is a sequence of characters.  An equation is [l |-> sequence of terms, r |-> term]; a term is a    *)
(* sequence of factors [neg, name, num, pow]: name is a sequence of characters, or <<>> and num is meant.     *)
EXTENDS PlonkCircuit

Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Digit == <<"0","1","2","3","4","5","6","7","8","9">>
Set(s) == {s[i] : i \in 1 .. Len(s)}
IndexIn(s, c) == CHOOSE i \in 1 .. Len(s) : s[i] = c
Fold1(c) == IF c \in Set(Upper) THEN Lower[IndexIn(Upper, c)] ELSE c
Fold(t) == [i \in 1 .. Len(t) |-> Fold1(t[i])]
Blanks == {" ", "\t", "\n"}
Start == Set(Lower) \cup {"_"}
Word == Start \cup Set(Digit)

NoEquation == [ok |-> FALSE]
----------------------------------------------------------------------------
(* Reading. *)
RECURSIVE SquareFrom(_, _, _, _)
(* Blanks vanish, but do not join words. gap: a blank was just seen. *)
SquareFrom(t, i, acc, gap) ==
  IF i > Len(t) THEN [ok |-> TRUE, t |-> acc]
  ELSE IF t[i] \in Blanks THEN SquareFrom(t, i + 1, acc, TRUE)
  ELSE IF gap /\ acc # <<>> /\ acc[Len(acc)] \in Word /\ t[i] \in Word THEN NoEquation
  ELSE SquareFrom(t, i + 1, Append(acc, t[i]), FALSE)
Squeezed(t) == SquareFrom(t, 1, <<>>, FALSE)

RECURSIVE SplitFrom(_, _, _, _, _)
SplitFrom(t, c, i, acc, piece) ==
  IF i > Len(t) THEN Append(acc, piece)
  ELSE IF t[i] = c THEN SplitFrom(t, c, i + 1, Append(acc, piece), <<>>)
  ELSE SplitFrom(t, c, i + 1, acc, Append(piece, t[i]))
Split(t, c) == SplitFrom(t, c, 1, <<>>, <<>>)

RECURSIVE NoZeros(_)
NoZeros(d) == IF Len(d) > 1 /\ d[1] = "0" THEN NoZeros(Tail(d)) ELSE d
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE 10 * Value(SubSeq(d, 1, Len(d) - 1)) + IndexIn(Digit, d[Len(d)]) - 1
(* Up to 2147483647 *)
IsNumber(d) ==
  /\ d # <<>> /\ \A i \in 1 .. Len(d) : d[i] \in Set(Digit)
  /\ LET e == NoZeros(d) IN
     \/ Len(e) < 10
     \/ Len(e) = 10 /\ LET h == Value(SubSeq(e, 1, 9)) IN h < 214748364 \/ (h = 214748364 /\ e[10] \in {"0","1","2","3","4","5","6","7"})
Number(d) == Value(NoZeros(d))
IsName(d) == d # <<>> /\ d[1] \in Start /\ \A i \in 1 .. Len(d) : d[i] \in Word

RECURSIVE Signs(_)
Signs(t) == IF t # <<>> /\ t[1] = "-" THEN 1 + Signs(Tail(t)) ELSE 0
ReadFactor(t) ==
  LET n == Signs(t)
      u == SubSeq(t, n + 1, Len(t))
      parts == Split(u, "^")
      base == parts[1]
  IN  IF Len(parts) > 2 \/ (Len(parts) = 2 /\ ~ IsNumber(parts[2])) \/ ~ (IsName(base) \/ IsNumber(base)) THEN NoEquation
      ELSE [ok |-> TRUE, f |-> [neg |-> n, name |-> IF IsName(base) THEN base ELSE <<>>, num |-> IF IsName(base) THEN 0 ELSE Number(base),
                                pow |-> IF Len(parts) = 2 THEN Number(parts[2]) ELSE 1]]
ReadTerm(t) ==
  LET fs == [i \in 1 .. Len(Split(t, "*")) |-> ReadFactor(Split(t, "*")[i])] IN
  IF \E i \in 1 .. Len(fs) : ~ fs[i].ok THEN NoEquation ELSE [ok |-> TRUE, f |-> [i \in 1 .. Len(fs) |-> fs[i].f]]
ReadEquation(t) ==
  LET q == Squeezed(Fold(t)) IN
  IF ~ q.ok THEN NoEquation
  ELSE LET sides == Split(q.t, "=") IN
       IF Len(sides) # 2 THEN NoEquation
       ELSE LET ls == Split(sides[1], "+")
                l == [i \in 1 .. Len(ls) |-> ReadTerm(ls[i])]
                r == ReadTerm(sides[2])
            IN  IF ~ r.ok \/ \E i \in 1 .. Len(l) : ~ l[i].ok THEN NoEquation
                ELSE [ok |-> TRUE, l |-> [i \in 1 .. Len(l) |-> l[i].f], r |-> r.f]

(* Writing, plainly. *)
RECURSIVE Numeral(_)
Numeral(n) == IF n < 10 THEN <<Digit[n + 1]>> ELSE Append(Numeral(n \div 10), Digit[(n % 10) + 1])
RECURSIVE Joined(_, _)
Joined(s, c) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<c>> \o Joined(Tail(s), c)
WriteFactor(f) ==
  [i \in 1 .. f.neg |-> "-"] \o (IF f.name = <<>> THEN Numeral(f.num) ELSE f.name) \o (IF f.pow = 1 THEN <<>> ELSE <<"^">> \o Numeral(f.pow))
WriteTerm(t) == Joined([i \in 1 .. Len(t) |-> WriteFactor(t[i])], "*")
WriteEquation(e) == Joined([i \in 1 .. Len(e.l) |-> WriteTerm(e.l[i])], "+") \o <<"=">> \o WriteTerm(e.r)

----------------------------------------------------------------------------
(* Meaning. val gives names their values. *)
FactorNames(f) == IF f.name = <<>> THEN {} ELSE {f.name}
TermNames(t) == UNION {FactorNames(t[i]) : i \in 1 .. Len(t)}
Names(e) == UNION ({TermNames(e.l[i]) : i \in 1 .. Len(e.l)} \cup {TermNames(e.r)})
FactorValue(f, val) ==
  LET v == FPow(P, IF f.name = <<>> THEN FE(P, f.num) ELSE val[f.name], f.pow) IN IF f.neg % 2 = 1 THEN FNeg(P, v) ELSE v
RECURSIVE TermValue(_, _)
TermValue(t, val) == IF t = <<>> THEN FE(P, 1) ELSE FMul(P, FactorValue(t[1], val), TermValue(Tail(t), val))
RECURSIVE SumValue(_, _)
SumValue(ts, val) == IF ts = <<>> THEN FE(P, 0) ELSE FAdd(P, TermValue(ts[1], val), SumValue(Tail(ts), val))
Difference(e, val) == FSub(P, SumValue(e.l, val), TermValue(e.r, val))
Holds(e, val) == Difference(e, val) = FE(P, 0)

----------------------------------------------------------------------------
(* Circuits.  A row [l, r, o, m, q, w] says l a + r b + o c + m a b + q = 0 of its wires w = <<a, b, c>>.      *)
(* Wires are named here by what they carry: <<"name", n>>, <<"num", neg, n>>, <<"neg", n>>, <<"*", u, v>>,    *)
(* <<"+", u, v>>, <<"free", u>>.                                                                            *)
One == F1
Zero == F0
MOne == FM1
AddRow(a, b, c) == [l |-> One, r |-> One, o |-> MOne, m |-> Zero, q |-> Zero, w |-> <<a, b, c>>]
MulRow(a, b, c) == [l |-> Zero, r |-> Zero, o |-> MOne, m |-> One, q |-> Zero, w |-> <<a, b, c>>]
ConstRow(a, n) == [l |-> One, r |-> Zero, o |-> Zero, m |-> Zero, q |-> FNeg(P, n), w |-> <<a, <<"free", a>>, <<"free", a>> >>]
NumWire(neg, n) == <<"num", neg, n>>
NumRow(neg, n) == ConstRow(NumWire(neg, n), IF neg THEN FNeg(P, FE(P, n)) ELSE FE(P, n))
(* Plain factors: without power, with a sign or not. *)
RECURSIVE Copies(_, _)
Copies(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Copies(x, n - 1)
PlainFactor(f) ==
  LET one == [neg |-> FALSE, name |-> f.name, num |-> f.num]
      many == IF f.pow = 0 THEN << [neg |-> FALSE, name |-> <<>>, num |-> 1] >> ELSE Copies(one, f.pow)
  IN  [many EXCEPT ![1].neg = (f.neg % 2 = 1)]
RECURSIVE PlainTerm(_)
PlainTerm(t) == IF t = <<>> THEN <<>> ELSE PlainFactor(t[1]) \o PlainTerm(Tail(t))
FactorWire(f) == IF f.name = <<>> THEN NumWire(f.neg, f.num) ELSE IF f.neg THEN <<"neg", f.name>> ELSE <<"name", f.name>>
FactorRows(f) ==
  IF f.name = <<>> THEN <<NumRow(f.neg, f.num)>>
  ELSE IF f.neg THEN <<NumRow(TRUE, 1), MulRow(NumWire(TRUE, 1), <<"name", f.name>>, <<"neg", f.name>>)>> ELSE <<>>
RECURSIVE ProductFrom(_, _, _)
(* The wire and the rows of a product, from left to right. *)
ProductFrom(fs, wire, rows) ==
  IF fs = <<>> THEN [w |-> wire, rows |-> rows]
  ELSE LET b == FactorWire(fs[1]) c == <<"*", wire, b>> IN ProductFrom(Tail(fs), c, rows \o FactorRows(fs[1]) \o <<MulRow(wire, b, c)>>)
TermCircuit(t) == LET fs == PlainTerm(t) IN ProductFrom(Tail(fs), FactorWire(fs[1]), FactorRows(fs[1]))
RECURSIVE SumFrom(_, _, _)
SumFrom(ts, wire, rows) ==
  IF ts = <<>> THEN [w |-> wire, rows |-> rows]
  ELSE LET t == TermCircuit(ts[1]) c == <<"+", wire, t.w>> IN SumFrom(Tail(ts), c, rows \o t.rows \o <<AddRow(wire, t.w, c)>>)
Negated(t) == [t EXCEPT ![1].neg = @ + 1]
CircuitOf(e) ==
  LET ts == Append(e.l, Negated(e.r)) first == TermCircuit(ts[1]) whole == SumFrom(Tail(ts), first.w, first.rows) IN
  [rows |-> whole.rows, out |-> whole.w]

RowValue(row, a, b, c) ==
  FAdd(P, FAdd(P, FMul(P, row.l, a), FMul(P, row.r, b)), FAdd(P, FMul(P, row.o, c), FAdd(P, FMul(P, row.m, FMul(P, a, b)), row.q)))

----------------------------------------------------------------------------
(* What a system of rows forces.  Rows name classes of wired-together cells.  Some classes may carry a        *)
(* variable: hints is a sequence of [cls: set of classes, val], one per variable.  Solve lets one class of a  *)
(* variable carry the variable's value when nothing else can be worked out, and reports                     *)
(*   k: the values worked out, as a function on classes, open: the classes that something depends on but      *)
(*   that are left free.                                                                                     *)
Matters(row, j) == CASE j = 1 -> row.l # Zero \/ row.m # Zero [] j = 2 -> row.r # Zero \/ row.m # Zero [] j = 3 -> row.o # Zero
Relevant(rows) == UNION {{rows[i].w[j] : j \in {x \in 1 .. 3 : Matters(rows[i], x)}} : i \in 1 .. Len(rows)}
Unknowns(row, k) == {row.w[j] : j \in {x \in 1 .. 3 : Matters(row, x) /\ row.w[x] \notin DOMAIN k}}
At(k, c, v, x) == IF c = x THEN v ELSE IF c \in DOMAIN k THEN k[c] ELSE Zero
ValueWith(row, k, v, x) == RowValue(row, At(k, row.w[1], v, x), At(k, row.w[2], v, x), At(k, row.w[3], v, x))
(* A row that is linear in its only unknown class x. *)
Linear(row, x) == ~ (row.m # Zero /\ row.w[1] = x /\ row.w[2] = x)
Slope(row, k, x) == FSub(P, ValueWith(row, k, One, x), ValueWith(row, k, Zero, x))
With(k, x, v) == [c \in DOMAIN k \cup {x} |-> IF c = x THEN v ELSE k[c]]
Usable(rows, k) ==
  {i \in 1 .. Len(rows) :
     LET u == Unknowns(rows[i], k) IN
     Cardinality(u) = 1 /\ LET x == CHOOSE x \in u : TRUE IN Linear(rows[i], x) /\ Slope(rows[i], k, x) # Zero}
RECURSIVE SolveFrom(_, _, _)
SolveFrom(rows, hints, k) ==
  LET us == Usable(rows, k) IN
  IF us # {} THEN
    LET row == rows[CHOOSE i \in us : TRUE]
        x == CHOOSE x \in Unknowns(row, k) : TRUE
        v == FNeg(P, FMul(P, ValueWith(row, k, Zero, x), FInv(P, Slope(row, k, x))))
    IN  SolveFrom(rows, hints, CHOOSE r \in {With(k, x, v)} : TRUE)
  ELSE LET left == Relevant(rows) \ DOMAIN k
           hs == {i \in 1 .. Len(hints) : hints[i].cls \cap left # {}}
       IN  IF left = {} \/ hs = {} THEN [k |-> k, open |-> left]
           ELSE LET h == hints[CHOOSE i \in hs : TRUE]
                    x == CHOOSE x \in h.cls \cap left : TRUE
                    rest == SelectSeq(hints, LAMBDA g : g # h)
                IN  SolveFrom(rows, rest, CHOOSE r \in {With(k, x, h.val)} : TRUE)
None == [c \in {} |-> Zero]
Solve(rows, hints) == SolveFrom(rows, hints, None)
Broken(rows, k) == {i \in 1 .. Len(rows) : Unknowns(rows[i], k) = {} /\ ValueWith(rows[i], k, Zero, <<>>) # Zero}
=============================================================================
