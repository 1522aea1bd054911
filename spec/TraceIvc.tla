------------------------------ MODULE TraceIvc ------------------------------
(* Recorded sessions of augmented circuits and IVC verifiers against Ivc and Nova.  Hashes and challenges     *)
(* are what the code answers to the questions of the specification.                                          *)
EXTENDS Nova, Ivc, TraceBase
CONSTANT Q              \* the field of states, step numbers and hashes
VARIABLES sc, l, hashed \* questions asked of the public hash, with their answers
tvars == <<sc, l, nvars, chains, hashed>>

Prime == "52435875175126190479447740508185965837690552500527637822603658699938581184513"
BasePrime == "4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"
StringZero == "0"
StringOne == "1"
TSucc(i) == FAdd(Q, i, "1")
TAsScalar(h) == FE(P, h)
Word(w, k) == IF k <= Len(w) THEN FE(Q, w[k]) ELSE "0"
RECURSIVE Total(_, _)
Total(w, k) == IF k = 0 THEN "0" ELSE FAdd(Q, Total(w, k - 1), Word(w, k))
TStepF(kind, z, w) ==
  CASE kind = "cube"  -> FAdd(Q, FAdd(Q, FMul(Q, z, FMul(Q, z, z)), z), "5")
    [] kind = "add"   -> FAdd(Q, z, Total(w, Len(w)))
    [] kind = "mul"   -> FAdd(Q, FMul(Q, z, Word(w, 1)), Word(w, Len(w)))
    [] kind = "const" -> "7"

S == Trace[sc]
E == S.events[l]
TraceInit ==
  /\ sc \in 1 .. Len(Trace) /\ l = 1 /\ pairs = <<>> /\ chains = <<>> /\ hashed = {}
  /\ sys = (IF Has(Trace[sc], "sys") THEN Trace[sc].sys ELSE <<>>)
  /\ secret = (IF Has(Trace[sc], "secret") THEN Trace[sc].secret ELSE F0)
Is(op) == l <= Len(S.events) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED <<sc, nvars>>
Chk(prop, what, ok) == Expect(prop, S.id, l, what, ok)
ChkIs(prop, what, got, want) == ExpectIs(prop, S.id, l, what, got, want)
Chks(props, what, ok) == \A p \in props : Chk(p, what, ok)
Ask(ok) == Assert(ok, <<"the harness asked another question", S.id, l>>)
Ok == Has(E.res, "ok")
(* A hash is a function of the question, and another question has another answer. *)
Heard(q) ==
  /\ Chk("N06", "the public hash is a function of what it hashes", \A o \in hashed : o.a = q.a => o.h = q.h)
  /\ Chk("N06", "the public hash binds all that it hashes", \A o \in hashed : o.h = q.h => o.a = q.a)
  /\ hashed' = hashed \cup {q}
SameCircuit(a, c) == a.i = c.i /\ a.z0 = c.z0 /\ a.zi = c.zi /\ a.zn = c.zn /\ a.hi = c.hi /\ a.hn = c.hn /\ a.triv = c.triv
Adopt(a, kind) == [kind |-> kind, i |-> a.i, z0 |-> a.z0, zi |-> a.zi, zn |-> a.zn, hi |-> a.hi, hn |-> a.hn, triv |-> a.triv]
Become(k) == chains' = [chains EXCEPT ![k] = Adopt(E.after, @.kind)]

TNew ==
  /\ Is("new")
  /\ ChkIs("N05", "a new circuit stands at the start", Adopt(E.after, E.kind), Circuit(E.kind, E.z0, E.triv))
  /\ chains' = Append(chains, Adopt(E.after, E.kind)) /\ UNCHANGED hashed
(* somebody wrote to the public fields *)
TSet == Is("set") /\ Become(E.c) /\ UNCHANGED hashed

TRun ==
  /\ Is("run")
  /\ LET c == chains[E.c]
         checked == ~ AtStart(c) /\ E.U # None /\ E.ct # None /\ c.hi # None
         allowed == /\ checked => Ask(E.cur.a = CurrentArgs(c, The(E.U)))
                    /\ MayRun(c, E.u, E.U, E.ct, IF checked THEN E.cur.h ELSE "0") IN
     IF allowed
     THEN LET V == IF AtStart(c) THEN c.triv ELSE FoldI(E.r, E.u, The(E.U), The(E.ct))
              want == Ran(c, E.w, E.nxt.h) IN
          /\ Ask(~ AtStart(c) => E.fed = ChallengeItems(E.u, The(E.U), The(E.ct)))
          /\ Ask(E.nxt.a = NextArgs(c, E.w, V))
          /\ Chks({"N03", "N05"}, "a step that passes the checks is run", Ok)
          /\ Chks({"N05", "N06"}, "a run returns the next hash", Ok => E.res.ok = E.nxt.h)
          /\ Ok => Chks({"N03", "N05"}, "a run prepares the next state", E.after.zn = want.zn)
          /\ Chk("N05", "a run prepares the next state and hash and changes nothing else", Ok => SameCircuit(E.after, want))
          /\ Heard(E.nxt)
     ELSE /\ Chk("N05", "a step that fails a check is refused", Has(E.res, "err"))
          /\ Chk("N05", "a refused run changes nothing", SameCircuit(E.after, c))
          /\ UNCHANGED hashed
  /\ Become(E.c)
TNext ==
  /\ Is("next")
  /\ LET c == chains[E.c] IN
     IF MayAdvance(c)
     THEN Chks({"N03", "N05"}, "the circuit advances to the state and hash of the last run", Ok /\ SameCircuit(E.after, Advanced(c)))
     ELSE Chk("N05", "without a run the circuit does not advance", SameCircuit(E.after, c))
  /\ Become(E.c) /\ UNCHANGED hashed

(* IVC::prove with the step pair (u, w) and the running pair (U, W) *)
TProve ==
  /\ Is("prove")
  /\ LET c == chains[E.c] IN
     IF ~ Ok THEN Chk("N03", "a step is proved", FALSE)
     ELSE LET o == E.res.ok IN
          IF AtStart(c)
          THEN Chks({"N03", "N04"}, "before the first step there is nothing to fold",
                    o.fi = E.U /\ o.fw = E.W /\ o.zk = [u |-> E.u, U |-> E.U, ct |-> None, pf |-> None])
          ELSE IF ~ IsWhole(o.zk) THEN Chks({"N03", "N04"}, "a proof has all its parts", FALSE)
          ELSE LET p1 == [fi |-> E.u, fw |-> E.w] p2 == [fi |-> E.U, fw |-> E.W] pf == The(o.zk.pf) IN
               /\ Chks({"N03", "N04"}, "a proof is about the pairs", o.zk.u = E.u /\ o.zk.U = E.U)
               /\ Ask(E.fed = E.pre \o ChallengeItems(E.u, E.U, The(o.zk.ct)))
               /\ Chks({"N03", "N06"}, "the folding challenge is the transcript's", pf.r = E.r)
               /\ LET want == [fw |-> FoldW(pf.r, p1.fw, p2.fw, CrossOf(sys, p1, p2)), fi |-> FoldI(pf.r, E.u, E.U, The(o.zk.ct))] IN
                  /\ Chk("N03", "cross term", The(o.zk.ct) = CommitV(secret, CrossOf(sys, p1, p2)))
                  /\ ChkIs("N03", "the running instance is folded", o.fi, want.fi)
                  /\ Chk("N03", "the running witness is folded", SameWitness(o.fw, want.fw))
                  /\ Ask(E.fed2 = PointItems(o.fi))
                  /\ Chks({"N03", "N06"}, "the opening point is the transcript's", pf.point = E.point)
                  /\ Chk("N03", "openings", pf.ow = OpeningOf(secret, o.fw.w, pf.point) /\ pf.oe = OpeningOf(secret, o.fw.e, pf.point))
  /\ UNCHANGED <<chains, hashed>>

TVerify ==
  /\ Is("verify")
  /\ LET c == chains[E.c] zk == E.zk
         whole == ~ AtStart(c) /\ IsWhole(zk)
         asked == /\ E.cur.a = CurrentArgs(c, zk.U)
                  /\ whole => LET V == FoldI(The(zk.pf).r, zk.u, zk.U, The(zk.ct)) IN
                              E.fed = E.pre \o ChallengeItems(zk.u, zk.U, The(zk.ct)) /\ E.fed2 = PointItems(V)
         want == MayAccept(c, zk, E.cur.h, whole /\ FoldingAccepted(secret, The(zk.pf), FoldI(The(zk.pf).r, zk.u, zk.U, The(zk.ct)), E.r, E.point)) IN
     /\ Ask(asked)
     /\ Chk("N04", IF want THEN "a consistent proof is accepted" ELSE "an inconsistent proof is rejected", E.res = [ok |-> want])
     /\ (Has(E, "honest") => Chk("N03", "the proof of a step is accepted", want /\ E.res = [ok |-> TRUE]))
     /\ Chk("N05", "verifying changes nothing", SameCircuit(E.after, c))
     \* what the accepted proof rests on
     /\ (Has(E, "step") /\ E.res = [ok |-> TRUE])
          => /\ Chk("N04", "no accepted step is unsatisfied", Satisfied(sys, secret, zk.u, E.step))
     /\ Heard(E.cur)
  /\ Become(E.c)

(* is_r1cs_satisfied for the accumulated pair of a chain whose steps are satisfied *)
TAccumulated ==
  /\ Is("accumulated")
  /\ Chk("N03", "the accumulated pair is satisfied", Satisfied(sys, secret, E.fi, E.fw) /\ E.res = [ok |-> TRUE])
  /\ UNCHANGED <<chains, hashed>>
(* AugmentedCircuit::hash_io *)
THash == Is("hash") /\ Chk("N06", "the public hash answers", Ok) /\ (IF Ok THEN Heard([a |-> E.a, h |-> E.res.ok]) ELSE UNCHANGED hashed) /\ UNCHANGED chains
(* many different arguments *)
THashCrowd == Is("hashcrowd") /\ Chk("N06", "the public hashes of many different arguments differ", E.distinct = E.n) /\ UNCHANGED <<chains, hashed>>
TCrash == Is("crash") /\ (\A p \in {"N03", "N04", "N05", "N06"} : Report(p, S.id, l, E.why)) /\ UNCHANGED <<chains, hashed>>
TraceNext == TNew \/ TSet \/ TRun \/ TNext \/ TProve \/ TVerify \/ TAccumulated \/ THash \/ THashCrowd \/ TCrash
=============================================================================
