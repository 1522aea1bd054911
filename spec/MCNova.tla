------------------------------- MODULE MCNova -------------------------------
(* All folding sessions over small systems, a small field and the exponent group.                            *)
EXTENDS Nova, TLC
CONSTANTS Systems, MaxBase, MaxFolds, Secrets, Vals, Us
VARIABLE folds
mvars == <<nvars, folds>>
El == 0 .. P - 1

(* one variable, one public value: w * w = x;  w * u = x twice (more rows than variables); *)
(* two variables, one row;  no public value *)
SysSquare == [a |-> << <<1, 0, 0>> >>, b |-> << <<1, 0, 0>> >>, c |-> << <<0, 1, 0>> >>, io |-> 1, vars |-> 1]
SysTall   == [a |-> << <<1, 0, 0>>, <<0, 1, 1>> >>, b |-> << <<1, 0, 0>>, <<1, 0, 0>> >>, c |-> << <<0, 1, 0>>, <<1, 0, 2>> >>, io |-> 1, vars |-> 1]
SysWide   == [a |-> << <<1, 1, 0, 0>> >>, b |-> << <<0, 1, 0, 1>> >>, c |-> << <<0, 0, 1, 0>> >>, io |-> 1, vars |-> 2]
SysBare   == [a |-> << <<1, 1>>, <<1, 0>> >>, b |-> << <<1, 0>>, <<0, 1>> >>, c |-> << <<0, 1>>, <<1, 0>> >>, io |-> 0, vars |-> 1]
AllSystems == {SysSquare, SysTall, SysWide, SysBare}
SmallSystems == {SysSquare, SysTall, SysBare}

Init == sys \in Systems /\ secret \in Secrets /\ pairs = <<>> /\ folds = 0

Vectors(n) == [1 .. n -> Vals]
(* satisfied by construction, honestly committed *)
Good == \E w \in Vectors(sys.vars), x \in Vectors(sys.io), u \in Us :
          LET z == w \o x \o <<u>> fw == [e |-> ErrorOf(sys, z, u), w |-> w] IN Put(Instance(secret, fw, u, x), fw, TRUE)
Trivial == LET t == TrivialPair(secret, sys.io, sys.vars) IN Put(t.fi, t.fw, TRUE)
(* wrong in one row, or with a commitment to something else *)
Bad == \E w \in Vectors(sys.vars), x \in Vectors(sys.io), u \in Us, d \in {1}, k \in 1 .. Rows(sys) + 2 :
         LET z == w \o x \o <<u>>
             e == ErrorOf(sys, z, u)
             fw == [e |-> IF k <= Rows(sys) THEN [e EXCEPT ![k] = FAdd(P, @, d)] ELSE e, w |-> w]
             fi == Instance(secret, fw, u, x)
         IN  Put(IF k = Rows(sys) + 1 THEN [fi EXCEPT !.ce = FAdd(P, @, d)] ELSE IF k = Rows(sys) + 2 THEN [fi EXCEPT !.cw = FAdd(P, @, d)] ELSE fi, fw, FALSE)
Base == Len(pairs) < MaxBase /\ folds = 0 /\ (Good \/ Trivial \/ Bad) /\ UNCHANGED folds
Folding == folds < MaxFolds /\ \E i, j \in 1 .. Len(pairs), r \in El : Fold(i, j, r) /\ folds' = folds + 1
Next == Base \/ Folding

TwoUs == {0, 1}
BadStays == BadStaysBad(El)
(* The alterations and the counterpart are not vacuous: some fold of a bad pair is unsatisfied. *)
ZeroIsSatisfied == LET t == TrivialPair(secret, sys.io, sys.vars) IN Satisfied(sys, secret, t.fi, t.fw)
=============================================================================
