------------------------------- MODULE GenIvc -------------------------------
(* Random histories of two chains, printed for the harness: steps as they should be made, spoilt steps,       *)
(* repeated and premature calls, proofs spoilt or taken from another step or the other chain.                *)
EXTENDS IvcTerms, TLC, Json
CONSTANT Depth
VARIABLES hist, running, proofs
gvars == <<chains, hist, running, proofs>>
Pick(S) == RandomElement(S)
Kinds == {"add", "mul"}
GenInit == \E a \in {Pick(Kinds)} : \E b \in {Pick(Kinds)} : \E x \in {Pick(0 .. 2)} : \E y \in {Pick(0 .. 2)} :
  /\ chains = <<Circuit(a, x, Triv), Circuit(b, y, Triv)>>
  /\ hist = <<>> /\ proofs = 0
  /\ running = <<[now |-> Triv, next |-> Triv], [now |-> Triv, next |-> Triv]>>
Log(r) == hist' = Append(hist, r)
Spoils == {"none", "none", "none", "none", "noU", "noct", "x", "nox", "ce", "cw", "u", "U", "otherU", "ct"}
GRun == \E k \in {Pick(1 .. 2)} : \E w \in {Pick(0 .. 2)} : \E how \in {Pick(Spoils)} :
  LET c == chains[k] U == running[k].now u == StepInstance(w, Hash(CurrentArgs(c, U)))
      badu == CASE how = "x" -> [u EXCEPT !.x = << <<"0">> >>] [] how = "nox" -> [u EXCEPT !.x = <<>>] [] how = "ce" -> [u EXCEPT !.ce = <<"junk">>]
                [] how = "u" -> [u EXCEPT !.u = <<"0">>] [] OTHER -> u
      bad == how \in {"noU", "noct", "x", "nox", "ce", "u", "U", "otherU"}
      ct == CrossCom(u, U)
      use == IF how = "noU" THEN None ELSE IF how \in {"U", "otherU"} THEN Some([U EXCEPT !.cw = <<"junk">>]) ELSE Some(U)
      uct == IF how = "noct" THEN None ELSE IF how = "ct" THEN Some(<<"junk">>) ELSE Some(ct) IN
  /\ RunTerm(k, badu, use, uct, w)
  /\ running' = (IF Allowed(c, badu, use, uct) /\ ~ AtStart(c)
                 THEN [running EXCEPT ![k].next = Folded(Challenge(badu, U, The(uct)), badu, U, The(uct))] ELSE running)
  /\ Log([op |-> "run", c |-> k, w |-> w, how |-> how]) /\ UNCHANGED proofs
GNext == \E k \in {Pick(1 .. 2)} :
  /\ NextStep(k) /\ Log([op |-> "next", c |-> k]) /\ UNCHANGED proofs
  /\ running' = (IF MayAdvance(chains[k]) THEN [running EXCEPT ![k].now = running[k].next] ELSE running)
GProve == \E k \in {Pick(1 .. 2)} : \E w \in {Pick(0 .. 2)} : \E pre \in {Pick({0, 0, 1})} :
  UNCHANGED <<chains, running>> /\ proofs' = proofs + 1 /\ Log([op |-> "prove", c |-> k, w |-> w, pre |-> pre])
Parts == {"none", "none", "u", "U", "ct", "pf", "uU", "noct", "nopf", "x", "nox", "morex", "ce", "cw", "scalar", "r", "point", "ow", "oe", "Ucw", "Ux"}
GVerify == proofs > 0 /\ \E k \in {Pick(1 .. 2)} : \E p \in {Pick(1 .. proofs)} : \E q \in {Pick(1 .. proofs)} : \E part \in {Pick(Parts)} : \E recent \in {Pick({TRUE, TRUE, FALSE})} :
  UNCHANGED <<chains, running, proofs>>
  /\ Log([op |-> "verify", c |-> k, p |-> IF recent THEN proofs ELSE p, q |-> q, part |-> part])
GEmit == Len(hist) = Depth /\ PrintT("@@SCRIPT " \o ToJson([starts |-> <<chains[1].z0, chains[2].z0>>, kinds |-> <<chains[1].kind, chains[2].kind>>, hist |-> hist]))
         /\ Log([op |-> "end"]) /\ UNCHANGED <<chains, running, proofs>>
GenNext == GEmit \/ (Len(hist) < Depth /\ (GRun \/ GRun \/ GNext \/ GProve \/ GVerify \/ GVerify))
(* as in MCIvc *)
GenCorrect == \A k \in 1 .. 2 : chains[k].i > 0 => chains[k].hi # None
=============================================================================
