----------------------------- MODULE MCGrammar -----------------------------
(* Parser reads exactly the texts of the grammar: every text over an alphabet, up to a length.              *)
(*   equation = sum "=" term;  sum = term | sum "+" term;  term = factor | term "*" factor                   *)
(*   factor = "-" factor | power;  power = atom | atom "^" number;  atom = name | number                     *)
EXTENDS Parser
CONSTANTS Alphabet, MaxLen
VARIABLES t
Init == t = <<>>
Next == Len(t) < MaxLen /\ \E ch \in Alphabet : t' = Append(t, ch)
Spec == Init /\ [][Next]_t

Before(u, i) == SubSeq(u, 1, i - 1)
After(u, i) == SubSeq(u, i + 1, Len(u))
Atom(u) == IsName(u) \/ IsNumber(u)
Power(u) == Atom(u) \/ \E i \in 1 .. Len(u) : u[i] = "^" /\ Atom(Before(u, i)) /\ IsNumber(After(u, i))
RECURSIVE Factor(_)
Factor(u) == u # <<>> /\ (Power(u) \/ (u[1] = "-" /\ Factor(Tail(u))))
RECURSIVE Term(_)
Term(u) == Factor(u) \/ \E i \in 1 .. Len(u) : u[i] = "*" /\ Term(Before(u, i)) /\ Factor(After(u, i))
RECURSIVE SumText(_)
SumText(u) == Term(u) \/ \E i \in 1 .. Len(u) : u[i] = "+" /\ SumText(Before(u, i)) /\ Term(After(u, i))
Equation(u) == \E i \in 1 .. Len(u) : u[i] = "=" /\ SumText(Before(u, i)) /\ Term(After(u, i))
(* Blanks stand between the symbols, where no two words meet. *)
RECURSIVE Unblanked(_)
Unblanked(u) == SelectSeq(u, LAMBDA ch : ch \notin Blanks)
WordsMeet(u) == \E i, j \in 1 .. Len(u) : i + 1 < j /\ u[i] \in Word /\ u[j] \in Word /\ \A x \in i + 1 .. j - 1 : u[x] \in Blanks
Grammatical(u) == ~ WordsMeet(Fold(u)) /\ Equation(Unblanked(Fold(u)))
ReadsTheGrammar == ReadEquation(t).ok <=> Grammatical(t)
(* Two texts that are read alike are written alike. *)
NormalForm == LET q == ReadEquation(t) IN q.ok => ReadEquation(WriteEquation(q)) = q
=============================================================================
