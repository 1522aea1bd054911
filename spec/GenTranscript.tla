--------------------------- MODULE GenTranscript ---------------------------
(* Random histories of feeding, drawing and cloning, printed for the harness.  An item is a kind of message *)
(* ("c" commitment, "s" scalar) and a number that the harness gives a value.                                *)
EXTENDS Transcript, TLC, Json
CONSTANTS Depth, Alphabet
VARIABLES hist
Pick(S) == RandomElement(S)
Log(r) == hist' = Append(hist, r)
Item == [k |-> Pick({"c", "s"}), v |-> Pick(0 .. Alphabet - 1)]
NT == Len(ts)

GenInit == ts = <<>> /\ oracle = {} /\ hist = <<>>
GNew == NT < 5 /\ \E n \in {Pick(0 .. 2)} : \E is \in {[i \in 1 .. n |-> Item]} : NewT("k", "h", is) /\ Log([op |-> "new", items |-> is])
GFeed == NT > 0 /\ \E h \in {Pick(1 .. NT)} : \E x \in {Item} : FeedT(h, x) /\ Log([op |-> "feed", h |-> h, item |-> x])
(* bring one transcript to where another one is *)
Behind == {q \in (1 .. NT) \X (1 .. NT) : Len(ts[q[1]].fed) < Len(ts[q[2]].fed)}
GCatchUp == Behind # {} /\ \E q \in {Pick(Behind)} : \E x \in {ts[q[2]].fed[Len(ts[q[1]].fed) + 1]} : FeedT(q[1], x) /\ Log([op |-> "feed", h |-> q[1], item |-> x])
GClone == NT > 0 /\ NT < 6 /\ \E h \in {Pick(1 .. NT)} : CloneT(h) /\ Log([op |-> "clone", h |-> h])
GDraw == NT > 0 /\ \E h \in {Pick(1 .. NT)} : \E n \in {Pick({1, 2, 3, 5})} : \E out \in {Pick({"f", "f", "u"})} :
           DrawT(h, "f", IF CanDraw(h) THEN Got(<<>>) ELSE No) /\ Log([op |-> "draw", h |-> h, n |-> n, out |-> out])
GEmit == Len(hist) = Depth /\ PrintT("@@SCRIPT " \o ToJson([hist |-> hist])) /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED trvars
GenNext == GEmit \/ (Len(hist) < Depth /\ (GNew \/ GFeed \/ GFeed \/ GCatchUp \/ GClone \/ GDraw \/ GDraw))
=============================================================================
