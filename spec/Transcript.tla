----------------------------- MODULE Transcript -----------------------------
(* Fiat-Shamir transcripts.  A transcript is what it has been fed, in order, and whether a challenge has    *)
(* been drawn since the last item.  The hash is an oracle: the i-th challenge drawn is a fixed but unknown  *)
(* function of the kind of transcript, the hash in use and the exact sequence fed; `oracle` remembers the   *)
(* values seen so far.                                                                                      *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES ts,      \* sequence of [kind, hash, fed, drawn]
          oracle   \* set of [kind, hash, out, fed, i, v]
trvars == <<ts, oracle>>

Got(x) == [ok |-> x]
No == [refused |-> TRUE]
Given(r) == "ok" \in DOMAIN r

NewT(kind, hash, items) ==
  /\ ts' = Append(ts, [kind |-> kind, hash |-> hash, fed |-> items, drawn |-> FALSE])
  /\ UNCHANGED oracle

FeedT(h, item) ==
  /\ ts' = [ts EXCEPT ![h] = [@ EXCEPT !.fed = Append(@, item), !.drawn = FALSE]]
  /\ UNCHANGED oracle

CloneT(h) == ts' = Append(ts, ts[h]) /\ UNCHANGED oracle

(* Something must have been fed since the last draw, and at all. *)
CanDraw(h) == ~ ts[h].drawn /\ ts[h].fed # <<>>

Key(h, out, i, v) == [kind |-> ts[h].kind, hash |-> ts[h].hash, out |-> out, fed |-> ts[h].fed, i |-> i, v |-> v]
SameOracle(a, b) == a.kind = b.kind /\ a.hash = b.hash /\ a.out = b.out
SameQuestion(a, b) == a.i = b.i /\ a.fed = b.fed

(* Drawing `vals`: what was said before is repeated, and nothing else is. *)
Repeats(h, out, vals) ==
  \A i \in 1 .. Len(vals) : \A r \in oracle :
    LET k == Key(h, out, i, vals[i]) IN (SameOracle(r, k) /\ SameQuestion(r, k)) => r.v = vals[i]
Distinct(h, out, vals) ==
  /\ Cardinality({vals[i] : i \in 1 .. Len(vals)}) = Len(vals)
  /\ \A i \in 1 .. Len(vals) : \A r \in oracle :
       LET k == Key(h, out, i, vals[i]) IN (SameOracle(r, k) /\ ~ SameQuestion(r, k)) => r.v # vals[i]
(* Another hash gives other challenges. *)
HashMatters(h, out, vals) ==
  \A i \in 1 .. Len(vals) : \A r \in oracle :
    (r.kind = ts[h].kind /\ r.out = out /\ r.hash # ts[h].hash) => r.v # vals[i]

DrawT(h, out, res) ==
  IF Given(res)
  THEN /\ ts' = [ts EXCEPT ![h].drawn = TRUE]
       /\ oracle' = oracle \cup {Key(h, out, i, res.ok[i]) : i \in 1 .. Len(res.ok)}
  ELSE UNCHANGED trvars
=============================================================================
