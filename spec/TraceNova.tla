----------------------------- MODULE TraceNova -----------------------------
(* Recorded folding sessions of the real code against Nova.  Challenges are what the code's transcript       *)
(* answers to the questions of the specification.                                                            *)
EXTENDS Nova, TraceBase
VARIABLES sc, l
tvars == <<sc, l, nvars>>

S == Trace[sc]
E == S.events[l]
TraceInit ==
  /\ sc \in 1 .. Len(Trace) /\ l = 1 /\ pairs = <<>>
  /\ sys = (IF Has(Trace[sc], "sys") THEN Trace[sc].sys ELSE <<>>)
  /\ secret = (IF Has(Trace[sc], "secret") THEN Trace[sc].secret ELSE F0)
Is(op) == l <= Len(S.events) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED sc
Chk(prop, what, ok) == Expect(prop, S.id, l, what, ok)
ChkIs(prop, what, got, want) == ExpectIs(prop, S.id, l, what, got, want)
Chks(props, what, ok) == \A p \in props : Chk(p, what, ok)
Ask(ok) == Assert(ok, <<"the harness asked the transcript another question", S.id, l>>)
Ok == Has(E.res, "ok")
Observe == UNCHANGED nvars
PutRec(p) == Put(p.fi, p.fw, Satisfied(sys, secret, p.fi, p.fw))

(* FWitness::new(w, elen) and commit(x) *)
TCommit ==
  /\ Is("commit")
  /\ LET fw == [e |-> [i \in 1 .. E.elen |-> F0], w |-> E.w]
         want == [fi |-> Instance(secret, fw, F1, E.x), fw |-> fw] IN
     /\ Chks({"N01", "N02"}, "a fresh witness has no error", Ok /\ SameWitness(E.res.ok.fw, fw))
     /\ Chks({"N01", "N02"}, "an instance commits to its witness", Ok /\ E.res.ok.fi = want.fi)
     /\ IF Ok THEN PutRec(E.res.ok) ELSE PutRec(want)
TTrivial ==
  /\ Is("trivial")
  /\ LET want == TrivialPair(secret, E.io, E.vars) IN
     /\ Chk("N01", "the trivial pair is all zero", Ok /\ SameWitness(E.res.ok.fw, want.fw) /\ E.res.ok.fi = want.fi)
     /\ IF Ok THEN PutRec(E.res.ok) ELSE PutRec(want)
(* put together by somebody *)
TPair == Is("pair") /\ PutRec(E.pair) /\ (Has(E, "sat") => Assert(E.sat = Satisfied(sys, secret, E.pair.fi, E.pair.fw), <<"the harness expected otherwise", S.id, l>>))

TSat ==
  /\ Is("sat")
  /\ LET p == pairs[E.i] want == IsSat(p) IN
     /\ Chk("N02", "satisfaction is decided", Ok)
     /\ Ok => ChkIs("N02", IF want THEN "a satisfied pair is recognised" ELSE "an unsatisfied pair is reported", E.res.ok, want)
     /\ p.good => Chk("N01", "satisfied pairs and their folds are satisfied", Ok /\ E.res.ok)
  /\ Observe

(* NIFS::prover, and NIFS::verifier on the public parts *)
FoldedAs(p, r, want) ==
  /\ Chk("N01", "folded witness", p.fw.w = want.fw.w)
  /\ Chk("N01", "folded error", SameVector(p.fw.e, want.fw.e))
  /\ ChkIs("N01", "folded instance", p.fi, want.fi)
  /\ Chk("N01", "the folded instance commits to the folded witness",
         (Opens(secret, pairs[E.i].fi, pairs[E.i].fw) /\ Opens(secret, pairs[E.j].fi, pairs[E.j].fw)) => Opens(secret, p.fi, p.fw))
TFold ==
  /\ Is("fold")
  /\ IF Ok
     THEN LET o == E.res.ok
              want == FoldPair(sys, o.r, pairs[E.i], pairs[E.j], secret) IN
          /\ Ask(E.fed = E.pre \o ChallengeItems(pairs[E.i].fi, pairs[E.j].fi, o.ct))
          /\ ChkIs("N06", "the folding challenge is the transcript's", o.r, E.r)
          /\ Chk("N01", "cross term", o.ct = CommitV(secret, CrossOf(sys, pairs[E.i], pairs[E.j])))
          /\ FoldedAs(o, o.r, want)
          /\ Chk("N01", "the verifier computes the prover's instance", o.ver = o.fi)
          /\ Put(o.fi, o.fw, pairs[E.i].good /\ pairs[E.j].good)
     ELSE /\ Chk("N01", "pairs fold", FALSE)
          /\ Fold(E.i, E.j, F1)
(* compute_t, fold_witness, fold_instance, verifier with a challenge of one's own *)
TFoldWith ==
  /\ Is("foldwith")
  /\ IF Ok
     THEN LET o == E.res.ok
              want == FoldPair(sys, E.r, pairs[E.i], pairs[E.j], secret) IN
          /\ Chk("N01", "cross term", SameVector(o.t, CrossOf(sys, pairs[E.i], pairs[E.j])))
          /\ FoldedAs(o, E.r, want)
          /\ Chk("N01", "the verifier computes the prover's instance", o.ver = o.fi)
          /\ Put(o.fi, o.fw, pairs[E.i].good /\ pairs[E.j].good)
     ELSE /\ Chk("N01", "pairs fold", FALSE)
          /\ Fold(E.i, E.j, E.r)

(* NIFS::prove for the pair E.k, on a transcript that has been fed E.fed *)
TProve ==
  /\ Is("prove")
  /\ Chks({"N03", "N04"}, "folds are proved", Ok)
  /\ Ok =>
       LET p == pairs[E.k] o == E.res.ok IN
       /\ Ask(E.fed2 = PointItems(p.fi))
       /\ ChkIs("N06", "the opening point is the transcript's", o.point, E.point)
       /\ Chks({"N03", "N04"}, "the openings of the folded pair", o.ow = OpeningOf(secret, p.fw.w, o.point) /\ o.oe = OpeningOf(secret, p.fw.e, o.point) /\ o.r = E.r)
  /\ Observe

(* verify_challenge, verify_opening and verify *)
TVerify ==
  /\ Is("verify")
  /\ LET pf == E.pf
         chal == pf.r = E.r
         open == pf.point = E.point /\ ValidOpening(secret, E.fi3.cw, pf.ow, E.point) /\ ValidOpening(secret, E.fi3.ce, pf.oe, E.point) IN
     /\ Ask(E.fed = E.pre \o ChallengeItems(E.fi1, E.fi2, E.ct) /\ E.fed2 = PointItems(E.fi3))
     /\ ChkIs("N06", "the folding challenge is checked", E.res.chal, [ok |-> chal])
     /\ ChkIs("N04", "the openings of the folded instance are checked", E.res.open, [ok |-> open])
     /\ Assert((chal /\ open) = FoldingAccepted(secret, pf, E.fi3, E.r, E.point), "FoldingAccepted")
     \* an instance that is not the fold may be turned down for that
     /\ Chks({"N04", "N06"}, "the folding proof is decided",
             \/ E.res.full = [ok |-> chal /\ open]
             \/ E.res.full = [ok |-> FALSE] /\ E.fi3 # FoldI(pf.r, E.fi1, E.fi2, E.ct))
     /\ (Has(E, "honest") /\ E.honest) => Chk("N03", "an honest folding proof is accepted", E.res.full = [ok |-> TRUE])
  /\ Observe

TCrash == Is("crash") /\ (\A p \in {"N01", "N02", "N03", "N04", "N06"} : Report(p, S.id, l, E.why)) /\ Observe
TraceNext == TCommit \/ TTrivial \/ TPair \/ TSat \/ TFold \/ TFoldWith \/ TProve \/ TVerify \/ TCrash
Prime == "52435875175126190479447740508185965837690552500527637822603658699938581184513"
=============================================================================
