--------------------------------- MODULE Ivc ---------------------------------
(* The augmented circuit and the verifier of Nova's incrementally verifiable computation (crate nova:        *)
(* circuit, ivc).                                                                                            *)
(*                                                                                                          *)
(* State: the chains of the session.  A chain is an augmented circuit: its step function, the step number,   *)
(* the first and the current state, the state and hash that the last run has prepared, the hash that the     *)
(* next step instance must carry, and the trivial instance.  What hashes and transcripts answer comes in as  *)
(* an argument: as a term in the model (MCIvc), as the code's own answer in traces (TraceIvc).               *)
EXTENDS Integers, Sequences
CONSTANTS StepF(_, _, _),  \* kind, state, witness |-> next state
          Succ(_),         \* the next step number
          AsScalar(_),     \* a hash as a public value
          Zero, One        \* step number zero, scalar one
VARIABLE chains

None == <<>>
Some(v) == <<v>>
The(o) == o[1]

Circuit(kind, z0, triv) ==
  [kind |-> kind, i |-> Zero, z0 |-> z0, zi |-> z0, zn |-> None, hi |-> None, hn |-> None, triv |-> triv]
AtStart(c) == c.i = Zero

(* The question to the public hash. *)
HashArgs(i, z0, z, U) == [i |-> i, z0 |-> z0, z |-> z, U |-> U]
CurrentArgs(c, U) == HashArgs(c.i, c.z0, c.zi, U)
NextArgs(c, w, folded) == HashArgs(Succ(c.i), c.z0, StepF(c.kind, c.zi, w), IF AtStart(c) THEN c.triv ELSE folded)

IsFresh(c, u) == u.ce = c.triv.ce /\ u.u = One
Carries(u, h) == u.x # <<>> /\ u.x[1] = AsScalar(h)

(* May the step (u, U, com_t) be run?  h answers CurrentArgs(c, U). *)
MayRun(c, u, U, ct, h) ==
  AtStart(c) \/ (/\ U # None /\ ct # None /\ c.hi # None
                 /\ The(c.hi) = h /\ Carries(u, h) /\ IsFresh(c, u))
(* h answers NextArgs. *)
Ran(c, w, h) == [c EXCEPT !.zn = Some(StepF(c.kind, c.zi, w)), !.hn = Some(h)]

MayAdvance(c) == c.zn # None
Advanced(c) == [c EXCEPT !.i = Succ(c.i), !.zi = The(c.zn), !.hi = c.hn, !.zn = None, !.hn = None]

(* A proof: [u, U, ct, pf]; pf is None or the folding proof.  h answers CurrentArgs(c, zk.U); folded says    *)
(* whether the folding proof is accepted for u, U, their fold and com_t.                                     *)
IsWhole(zk) == zk.ct # None /\ zk.pf # None
MayAccept(c, zk, h, folded) ==
  IF AtStart(c) THEN c.z0 = c.zi
  ELSE IsWhole(zk) /\ Carries(zk.u, h) /\ IsFresh(c, zk.u) /\ folded

----------------------------------------------------------------------------
Start(kind, z0, triv) == chains' = Append(chains, Circuit(kind, z0, triv))
Run(k, u, U, ct, w, h, hn) == chains' = IF MayRun(chains[k], u, U, ct, h) THEN [chains EXCEPT ![k] = Ran(@, w, hn)] ELSE chains
NextStep(k) == chains' = IF MayAdvance(chains[k]) THEN [chains EXCEPT ![k] = Advanced(@)] ELSE chains
=============================================================================
