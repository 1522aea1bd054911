----------------------------- MODULE GenParser ------------------------------
(* Random equations as text, for the harness: factors, terms and sides of every kind, written with blanks and  *)
(* capital letters here and there; then perhaps damaged.  The harness gives the names values (mode "solve": it *)
(* seeks values for which the equation holds); what is read and what must happen is for TraceParser to say.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxFactors
VARIABLES toks, terms, goal, phase, left
gvars == <<toks, terms, goal, phase, left>>
Pick(S) == RandomElement(S)
NamesL == <<"x", "y", "z", "xy", "x1", "a_b", "_", "abc", "x_1y", "e", "yx">>
NumsL == <<"0", "1", "2", "3", "5", "10", "11", "12", "007", "00", "100", "65536", "2147483647", "21474836">>
PowsL == <<"0", "1", "2", "3", "4", "02", "7">>
GenInit == toks = <<>> /\ terms = 0 /\ goal \in 2 .. MaxFactors /\ phase = "left" /\ left = 0
OneOf(s) == s[Pick(1 .. Len(s))]
(* A factor, as tokens. *)
Sign == CASE Pick(1 .. 10) = 1 -> <<"-">> [] Pick(1 .. 40) = 1 -> <<"-", "-">> [] Pick(1 .. 60) = 1 -> <<"-", "-", "-">> [] OTHER -> <<>>
Base == IF Pick(1 .. 10) <= 7 THEN OneOf(SubSeq(NamesL, 1, IF Pick(1 .. 3) = 1 THEN Len(NamesL) ELSE 3)) ELSE OneOf(NumsL)
Pow == IF Pick(1 .. 5) = 1 THEN <<"^", OneOf(PowsL)>> ELSE <<>>
GFactor ==
  /\ phase \in {"left", "right"} /\ goal > 0
  /\ \E s \in {Sign} : \E b \in {Base} : \E p \in {Pow} : \E j \in {Pick(1 .. 10)} :
     LET f == s \o <<b>> \o p IN
     IF toks = <<>> \/ toks[Len(toks)] = "=" THEN toks' = toks \o f
     ELSE toks' = toks \o <<IF phase = "left" /\ j <= 5 THEN "+" ELSE "*">> \o f
  /\ goal' = goal - 1 /\ UNCHANGED <<terms, phase, left>>
GEquals == phase = "left" /\ goal = 0 /\ phase' = "right" /\ toks' = Append(toks, "=") /\ goal' \in {Pick({1, 1, 1, 2, 3})} /\ UNCHANGED <<terms, left>>
(* Blanks between tokens, and damage: tokens lost, doubled, exchanged, put in. *)
RECURSIVE Blanked(_)
Blanked(s) ==
  IF s = <<>> THEN <<>>
  ELSE (IF Pick(1 .. 4) = 1 THEN OneOf(<< <<" ">>, <<" ", " ">>, <<"\t">>, <<"\n">> >>) ELSE <<>>) \o <<s[1]>> \o Blanked(Tail(s))
Strange == <<"=", "+", "-", "*", "^", " ", "(", ")", "x", "2", "/", ".", "x 2", "2 2", "2x", "^ -2", "4294967297", "2147483648", "99999999999999999999", "^2147483648", "^2^2", "#", ",">>
Damaged(s) ==
  \E i \in {Pick(1 .. Len(s))} : \E c \in {OneOf(Strange)} :
     CASE Pick(1 .. 4) = 1 -> phase' = "end" /\ toks' = SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
       [] Pick(1 .. 3) = 1 -> phase' = "end" /\ toks' = SubSeq(s, 1, i) \o SubSeq(s, i, Len(s))
       [] OTHER -> phase' = "end" /\ toks' = SubSeq(s, 1, i) \o <<c>> \o SubSeq(s, i + 1, Len(s))
GFinish ==
  /\ phase = "right" /\ goal = 0
  /\ \E q \in {Pick(1 .. 3)} : IF q = 1 THEN Damaged(toks) ELSE (phase' = "end" /\ UNCHANGED toks)
  /\ UNCHANGED <<terms, goal, left>>
GEmit ==
  /\ phase = "end" /\ phase' = "done"
  /\ PrintT("@@SCRIPT " \o ToJson([toks |-> Blanked(toks), solve |-> (Pick(1 .. 3) > 1), capital |-> (Pick(1 .. 5) = 1), salt |-> Pick(0 .. 1000000)]))
  /\ UNCHANGED <<toks, terms, goal, left>>
GenNext == GFactor \/ GEquals \/ GFinish \/ GEmit
=============================================================================
