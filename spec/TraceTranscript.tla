-------------------------- MODULE TraceTranscript --------------------------
(* Recorded histories of the three real transcripts against Transcript.                                      *)
EXTENDS Transcript, TraceBase, FieldOps
VARIABLES sc, l
tvars == <<sc, l, trvars>>

S == Trace[sc]
E == S.events[l]
Res == IF Has(E.res, "ok") THEN Got(E.res.ok) ELSE No

TraceInit == sc \in 1 .. Len(Trace) /\ l = 1 /\ ts = <<>> /\ oracle = {}
Is(op) == l <= Len(S.events) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED sc

(* T01 and the property of the protocol the transcript serves. *)
Serves == [plonk |-> "P04", fri |-> "F05", nova |-> "N06"]
Both(kind, what, ok) == Expect("T01", S.id, l, what, ok) /\ Expect(Serves[kind], S.id, l, what, ok)

TNew == Is("new") /\ NewT(E.kind, E.hash, E.items)
TFeed == Is("feed") /\ FeedT(E.h, E.item)
TClone == Is("clone") /\ CloneT(E.h)
TDraw ==
  /\ Is("draw")
  /\ LET k == ts[E.h].kind IN
     /\ Both(k, "drawing is refused exactly when nothing was fed since the last draw", Given(Res) <=> CanDraw(E.h))
     /\ Given(Res) =>
          /\ Both(k, "as many challenges as asked for", Len(Res.ok) = E.n)
          /\ Both(k, "the same sequence gives the same challenges", Repeats(E.h, E.out, Res.ok))
          /\ Both(k, "different sequences give different challenges", Distinct(E.h, E.out, Res.ok))
          /\ Expect(Serves[k], S.id, l, "another hash gives other challenges", HashMatters(E.h, E.out, Res.ok))
  /\ DrawT(E.h, E.out, Res)
(* Fields too small for distinctness: only that challenges repeat and are elements. *)
TDrawSmall ==
  /\ Is("drawsmall")
  /\ Both("fri", "drawing is refused exactly when nothing was fed since the last draw", Given(Res) <=> CanDraw(E.h))
  /\ Given(Res) => Both("fri", "the same sequence gives the same challenges", Repeats(E.h, E.out, Res.ok))
  /\ DrawT(E.h, E.out, Res)
(* Many transcripts that were each fed something else: among so many, challenges that depend on too little of   *)
(* what was fed would fall alike.                                                                             *)
TCrowd ==
  /\ Is("crowd")
  /\ Both(E.kind, "challenges of many different sequences differ", Given(Res) /\ E.distinct = E.n)
  /\ UNCHANGED trvars
TCrash == Is("crash") /\ (\A p \in {"T01", "P04", "F05", "N06"} : Report(p, S.id, l, E.why)) /\ UNCHANGED trvars
TraceNext == TNew \/ TFeed \/ TClone \/ TDraw \/ TDrawSmall \/ TCrowd \/ TCrash
=============================================================================
