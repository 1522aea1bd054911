------------------------------ MODULE TraceKzg ------------------------------
(* Recorded sessions of the real scheme against Kzg.  Res(e) is the recorded result.                         *)
EXTENDS Kzg, TraceBase

VARIABLES sc, l
tvars == <<sc, l, kvars>>

S == Trace[sc]
E == S.events[l]
Res == IF Has(E.res, "ok") THEN Ok(E.res.ok) ELSE Refused
(* The recorded result, or what is prescribed where the code refused (to go on with). *)
Or(want) == IF IsOk(Res) THEN Res.ok ELSE want

TraceInit ==
  /\ sc \in 1 .. Len(Trace) /\ l = 1
  /\ secret = (IF Has(Trace[sc], "secret") THEN Trace[sc].secret ELSE FE(P, 0))
  /\ cap = (IF Has(Trace[sc], "n") THEN Trace[sc].n ELSE 0) + 3
  /\ coms = <<>> /\ opens = <<>>

Is(op) == l <= Len(S.events) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED sc
Chk(prop, what, ok) == Expect(prop, S.id, l, what, ok)
ChkIs(prop, what, want) == ExpectIs(prop, S.id, l, what, Res, want)

TCommit == Is("commit") /\ ChkIs("K01", "commit", CommitResult(E.f)) /\ Commit(E.f, Res)
TPara   == Is("para") /\ ChkIs("K01", "commit_para", Ok(CommitParaResult(E.v))) /\ CommitPara(E.v, Or(CommitParaResult(E.v)))
TOpen   == Is("open") /\ Chk("K02", "open", OpenAllowed(E.f, E.z, Res)) /\ Open(E.f, E.z, Res)

TAdd == Is("add") /\ LET r == AddResult(coms[E.i].pt, coms[E.j].pt) IN ChkIs("K05", "add", Ok(r)) /\ Add(E.i, E.j, Or(r))
TSub == Is("sub") /\ LET r == SubResult(coms[E.i].pt, coms[E.j].pt) IN ChkIs("K05", "sub", Ok(r)) /\ Sub(E.i, E.j, Or(r))
TNeg == Is("neg") /\ LET r == NegResult(coms[E.i].pt) IN ChkIs("K05", "neg", Ok(r)) /\ Neg(E.i, Or(r))
TMul == Is("mul") /\ LET r == MulResult(coms[E.i].pt, E.k) IN ChkIs("K05", "mul", Ok(r)) /\ Mul(E.i, E.k, Or(r))
TAgg == Is("agg") /\ LET r == AggregateResult([m \in 1 .. Len(E.is) |-> coms[E.is[m]].pt], E.k)
                     IN ChkIs("K05", "aggregate_commitments", Ok(r)) /\ Aggregate(E.is, E.k, Or(r))
TOAdd == Is("oadd") /\ LET r == AddOpeningResult(opens[E.i], opens[E.j])
                       IN ChkIs("K05", "add openings", Ok(r)) /\ AddOpening(E.i, E.j, Or(r))

(* An opening that is honestly one of the commitment's polynomial must be accepted (K02, and K05 where the   *)
(* opening is a sum); any other verdict is K03's.                                                           *)
HonestFor(c, o, z) == c.poly.known /\ o.poly.known /\ c.poly = o.poly /\ o.z = z
TVerify ==
  /\ Is("verify")
  /\ LET c == coms[E.i] o == opens[E.j] want == VerifyResult(c.pt, o, E.z) IN
     /\ ChkIs("K03", "verify", Ok(want))
     /\ HonestFor(c, o, E.z) => (Chk("K02", "honest opening verifies", Res = Ok(TRUE)) /\ Chk("K05", "opening of a sum verifies", Res = Ok(TRUE)))
     /\ Verify(E.i, E.j, E.z, Res)

TBatch ==
  /\ Is("batch")
  /\ LET even == Len(E.is) = Len(E.js) /\ Len(E.js) = Len(E.zs)
         items == [k \in 1 .. Len(E.is) |-> [c |-> coms[E.is[k]].pt, o |-> opens[E.js[k]], z |-> E.zs[k]]]
     IN  ChkIs("K04", "batch_verify", IF even THEN Ok(BatchResult(items)) ELSE Refused)
  /\ Batch(E.is, E.js, E.zs, Res)

TForgeCom  == Is("forgecom") /\ ForgeCom(E.k)
TForgeOpen == Is("forgeopen") /\ ForgeOpen(E.k, E.y)
TAlterY    == Is("altery") /\ AlterValue(E.i, E.d)
TAlterW    == Is("alterw") /\ AlterWitness(E.i, E.k)

TSetup ==
  /\ Is("setup")
  /\ ChkIs("K06", "new_from_secret",
       Ok([g1 |-> SrsG1(E.s, E.n), g2 |-> GGen("G2"), g2s |-> GMul("G2", E.s, GGen("G2"))]))
  /\ Setup(E.s, E.n)
TNewSetup ==
  /\ Is("newsetup")
  /\ Chk("K06", "new: returns", IsOk(Res))
  /\ IsOk(Res) =>
       LET r == Res.ok IN
       /\ Chk("K06", "new: number of points", r.len = E.n + 3)
       /\ Chk("K06", "new: generators", r.first = GGen("G1") /\ r.g2 = GGen("G2"))
       /\ Chk("K06", "new: powers of one secret", r.chain)
       /\ Chk("K06", "new: secret not shared", r.fresh)
       \* a secret that anyone can guess is no secret
       /\ Chk("K06", "new: secret not small", \A k \in 0 .. 20 : r.second # GMul("G1", FE(P, k), GGen("G1")))
  /\ Observe
TUseSetup == Is("usesetup") /\ Chk("K06", "random setup is usable", Res = Ok(TRUE)) /\ Observe

TCrash == Is("crash") /\ (\A p \in {"K01", "K02", "K03", "K04", "K05", "K06"} : Report(p, S.id, l, E.why)) /\ Observe

TraceNext ==
  \/ TCommit \/ TPara \/ TOpen \/ TAdd \/ TSub \/ TNeg \/ TMul \/ TAgg \/ TOAdd \/ TVerify \/ TBatch
  \/ TForgeCom \/ TForgeOpen \/ TAlterY \/ TAlterW \/ TSetup \/ TNewSetup \/ TUseSetup \/ TCrash
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Prime == "52435875175126190479447740508185965837690552500527637822603658699938581184513"
=============================================================================
