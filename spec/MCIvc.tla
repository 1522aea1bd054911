-------------------------------- MODULE MCIvc --------------------------------
(* All sessions of a few chains: honest steps, steps made of anything that was seen, in any order; proofs     *)
(* put together from anything that was seen.                                                                 *)
EXTENDS IvcTerms, TLC, FiniteSets
CONSTANTS Kinds, Starts, Ws, OddWs, NumChains, MaxStep, MaxPool
VARIABLES pool,    \* proofs made: [zk, i, z0, zi]
          pend,    \* per chain: what the last successful run used, [u, U, ct, w, V], or None
          past     \* per chain: the same of every advance
vars == <<chains, pool, pend, past>>

Init == /\ \E f \in [1 .. NumChains -> Kinds \X Starts] : chains = [k \in 1 .. NumChains |-> Circuit(f[k][1], f[k][2], Triv)]
        /\ pool = {} /\ pend = [k \in 1 .. NumChains |-> None] /\ past = [k \in 1 .. NumChains |-> <<>>]

(* The running instance of a chain. *)
Running(k) == IF past[k] = <<>> THEN Triv ELSE past[k][Len(past[k])].V
HonestStep(k, w) == StepInstance(w, Hash(CurrentArgs(chains[k], Running(k))))
HonestProof(k, w) == ProofOf(HonestStep(k, w), Running(k))

SeenU == {p.zk.u : p \in pool}
SeenBig == {p.zk.U : p \in pool} \cup {Triv}
SeenCt == {The(p.zk.ct) : p \in pool}
Spoil(u) == {[u EXCEPT !.ce = <<"junk">>], [u EXCEPT !.u = <<"0">>], [u EXCEPT !.x = << <<"0">> >>], [u EXCEPT !.x = <<>>], [u EXCEPT !.cw = <<"junk">>]}

DoRun(k, u, U, ct, w) ==
  /\ RunTerm(k, u, U, ct, w)
  /\ UNCHANGED <<pool, past>>
  /\ LET c == chains[k] IN
     IF Allowed(c, u, U, ct)
     THEN pend' = [pend EXCEPT ![k] = Some([u |-> u, U |-> IF AtStart(c) THEN Triv ELSE The(U), ct |-> ct, w |-> w,
                                            V |-> IF AtStart(c) THEN Triv ELSE Folded(Challenge(u, The(U), The(ct)), u, The(U), The(ct))])]
     ELSE UNCHANGED pend
Honest == \E k \in 1 .. NumChains, w \in Ws :
            LET c == chains[k] IN
            IF AtStart(c) THEN DoRun(k, StepInstance(w, <<"0">>), None, None, w)
            ELSE LET zk == HonestProof(k, w) IN DoRun(k, zk.u, Some(zk.U), zk.ct, w)
Odd == \E k \in 1 .. NumChains, w \in OddWs :
         \E u \in SeenU \cup {HonestStep(k, w)} \cup Spoil(HonestStep(k, w)), U \in {Some(V) : V \in SeenBig \cup {Running(k)}} \cup {None},
            ct \in {Some(t) : t \in SeenCt} \cup {None} :
              ~ AtStart(chains[k]) /\ DoRun(k, u, U, ct, w)
Advance == \E k \in 1 .. NumChains :
             /\ chains[k].i < MaxStep
             /\ NextStep(k)
             /\ past' = (IF MayAdvance(chains[k]) THEN [past EXCEPT ![k] = Append(@, The(pend[k]))] ELSE past)
             /\ pend' = [pend EXCEPT ![k] = None] /\ UNCHANGED pool
Prove == \E k \in 1 .. NumChains, w \in Ws :
           /\ ~ AtStart(chains[k]) /\ Cardinality(pool) < MaxPool
           /\ pool' = pool \cup {[zk |-> HonestProof(k, w), i |-> chains[k].i, z0 |-> chains[k].z0, zi |-> chains[k].zi]}
           /\ UNCHANGED <<chains, pend, past>>
Next == Honest \/ Odd \/ Advance \/ Prove

----------------------------------------------------------------------------
K == 1 .. NumChains
(* N05: the state is the step function applied to what the advances used; the step number counts them. *)
RECURSIVE After(_, _, _)
After(kind, z, h) == IF h = <<>> THEN z ELSE StepF(kind, After(kind, z, SubSeq(h, 1, Len(h) - 1)), h[Len(h)].w)
StateIsHistory == \A k \in K : chains[k].i = Len(past[k]) /\ chains[k].zi = After(chains[k].kind, chains[k].z0, past[k])
PreparedIsRun == \A k \in K : (chains[k].zn # None) = (pend[k] # None) /\ (chains[k].hn # None) = (pend[k] # None)
(* the running instance takes in every step, one after the other, and the hash is its hash *)
RunningIsHistory ==
  \A k \in K : \A n \in 2 .. Len(past[k]) :
    past[k][n].U = past[k][n - 1].V /\ Carries(past[k][n].u, Hash(HashArgs(n - 1, chains[k].z0, After(chains[k].kind, chains[k].z0, SubSeq(past[k], 1, n - 1)), past[k][n].U)))
HashIsCurrent == \A k \in K : chains[k].i > 0 => chains[k].hi = Some(Hash(CurrentArgs(chains[k], Running(k))))
(* a refused run changes nothing *)
RefusedChangeNothing ==
  [][\A k \in K : chains'[k] # chains[k] => (chains'[k].i = chains[k].i + 1 \/ (chains'[k].i = chains[k].i /\ chains'[k].zi = chains[k].zi /\ chains'[k].hi = chains[k].hi))]_vars

(* N03 *)
Complete == \A k \in K, w \in Ws :
  IF AtStart(chains[k]) THEN Accepts(chains[k], [u |-> Triv, U |-> Triv, ct |-> None, pf |-> None])
  ELSE LET zk == HonestProof(k, w) IN Accepts(chains[k], zk) /\ Allowed(chains[k], zk.u, Some(zk.U), zk.ct)

(* N04: what is accepted was made for this step, these states; with all parts of one proof, or proved anew   *)
(* by somebody who knows the witnesses.                                                                      *)
Mixes == {[u |-> a.zk.u, U |-> b.zk.U, ct |-> c.zk.ct, pf |-> d.zk.pf] : a \in pool, b \in pool, c \in pool, d \in pool}
Anew == {ProofOf(u, U) : u \in SeenU, U \in SeenBig}
Origin(c, zk) == \E p \in pool : p.zk.u = zk.u /\ p.zk.U = zk.U /\ p.i = c.i /\ p.z0 = c.z0 /\ p.zi = c.zi
OnlyCurrent == \A k \in K : ~ AtStart(chains[k]) => \A zk \in Mixes \cup Anew : Accepts(chains[k], zk) => Origin(chains[k], zk)
WholeProofs == \A k \in K : ~ AtStart(chains[k]) => \A zk \in Mixes : Accepts(chains[k], zk) => \E p \in pool : p.zk = zk
Altered(zk) ==
  LET p == The(zk.pf) J == <<"junk">> IN
  {[zk EXCEPT !.u = v] : v \in Spoil(zk.u)} \cup {[zk EXCEPT !.U = v] : v \in Spoil(zk.U) \ {zk.U}}
  \cup {[zk EXCEPT !.ct = Some(J)], [zk EXCEPT !.ct = None], [zk EXCEPT !.pf = None]}
  \cup {[zk EXCEPT !.pf = Some(q)] : q \in {[p EXCEPT !.r = J], [p EXCEPT !.point = J], [p EXCEPT !.ow = J], [p EXCEPT !.oe = J], [p EXCEPT !.ow = p.oe, !.oe = p.ow]}}
AlteredRejected == \A k \in K, w \in Ws : ~ AtStart(chains[k]) => \A zk \in Altered(HonestProof(k, w)) : ~ Accepts(chains[k], zk)
=============================================================================
