---------------------------- MODULE MCTranscript ----------------------------
(* The hash chain the code keeps - data' = H(data, item) - refines the transcript: with a hash that never   *)
(* collides, chains are equal exactly when the same items were fed in the same order, so challenges derived *)
(* from the chain are a function of the sequence and differ for different sequences.                        *)
EXTENDS Transcript, TLC
CONSTANTS Items, MaxLen, MaxHandles, Indexed
VARIABLES chain    \* per handle [data, index, generated]
mvars == <<trvars, chain>>

H(c, item) == IF Indexed THEN <<c.data, c.index, item>> ELSE <<c.data, item>>
Fed(c, item) == [data |-> H(c, item), index |-> c.index + 1, generated |-> FALSE]
Fresh == [data |-> <<>>, index |-> 0, generated |-> FALSE]

Init == ts = <<>> /\ oracle = {} /\ chain = <<>>
Handles == 1 .. Len(ts)
CNew == Len(ts) < MaxHandles /\ NewT("k", "h", <<>>) /\ chain' = Append(chain, Fresh)
CFeed == \E h \in Handles, x \in Items : Len(ts[h].fed) < MaxLen /\ FeedT(h, x) /\ chain' = [chain EXCEPT ![h] = Fed(@, x)]
CClone == Len(ts) < MaxHandles /\ \E h \in Handles : CloneT(h) /\ chain' = Append(chain, chain[h])
(* The code refuses when a challenge was drawn since the last item, or when there is no data. *)
ChainDraw(h) == IF chain[h].generated \/ chain[h].data = <<>> THEN No ELSE Got(<<<<chain[h].data, 1>>, <<chain[h].data, 2>>>>)
CDraw == \E h \in Handles : DrawT(h, "f", ChainDraw(h)) /\ chain' = [chain EXCEPT ![h].generated = @ \/ Given(ChainDraw(h))]
Next == CNew \/ CFeed \/ CClone \/ CDraw

ChainIsSequence == \A a \in Handles, b \in Handles : (chain[a].data = chain[b].data) <=> (ts[a].fed = ts[b].fed)
RefusesAlike == \A h \in Handles : Given(ChainDraw(h)) <=> CanDraw(h)
IsOracle == \A h \in Handles : Given(ChainDraw(h)) => (Repeats(h, "f", ChainDraw(h).ok) /\ Distinct(h, "f", ChainDraw(h).ok))
(* No two drawn values without an item in between. *)
NoReuse == \A h \in Handles : ts[h].drawn => ChainDraw(h) = No
=============================================================================
