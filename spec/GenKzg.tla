------------------------------- MODULE GenKzg -------------------------------
(* Random behaviours of Kzg, printed as scripts for the harness to replay on the real scheme.  Arguments are *)
(* residues of a small field; the harness gives each residue a scalar.                                      *)
EXTENDS Kzg, TLC, Json
CONSTANT Depth
VARIABLES hist, s0
gvars == <<kvars, hist, s0>>

Elems == 0 .. P - 1
Pick(S) == RandomElement(S)
RandPoly == CHOOSE f \in {[i \in 1 .. n |-> Pick(Elems \cup {0, 1})] : n \in {Pick(0 .. 7)}} : TRUE
Log(r) == hist' = Append(hist, r) /\ UNCHANGED s0

GenInit == /\ s0 \in Elems /\ secret = s0 /\ cap = 6 /\ coms = <<>> /\ opens = <<>> /\ hist = <<>>

NC == Len(coms)
NO == Len(opens)
GCommit == \E f \in {RandPoly} : Commit(f, CommitResult(f)) /\ Log([op |-> "commit", f |-> f])
GOpen   == \E f \in {RandPoly} : \E z \in {Pick(Elems \cup {secret})} : Open(f, z, OpenResult(f, z)) /\ Log([op |-> "open", f |-> f, z |-> z])
(* open a polynomial that has been committed to *)
GOpenCom == NC > 0 /\ \E i \in {Pick(1 .. NC)} : \E z \in {Pick(Elems)} :
              coms[i].poly.known /\ Open(coms[i].poly.f, z, OpenResult(coms[i].poly.f, z)) /\ Log([op |-> "open", f |-> coms[i].poly.f, z |-> z])
GPara   == \E v \in {Pick(Elems)} : CommitPara(v, CommitParaResult(v)) /\ Log([op |-> "para", v |-> v])
GAdd2   == NC > 0 /\ \E i \in {Pick(1 .. NC)} : \E j \in {Pick(1 .. NC)} : Add(i, j, AddResult(coms[i].pt, coms[j].pt)) /\ Log([op |-> "add", i |-> i, j |-> j])
GSub2   == NC > 0 /\ \E i \in {Pick(1 .. NC)} : \E j \in {Pick(1 .. NC)} : Sub(i, j, SubResult(coms[i].pt, coms[j].pt)) /\ Log([op |-> "sub", i |-> i, j |-> j])
GNeg2   == NC > 0 /\ \E i \in {Pick(1 .. NC)} : Neg(i, NegResult(coms[i].pt)) /\ Log([op |-> "neg", i |-> i])
GMul2   == NC > 0 /\ \E i \in {Pick(1 .. NC)} : \E k \in {Pick(Elems)} : Mul(i, k, MulResult(coms[i].pt, k)) /\ Log([op |-> "mul", i |-> i, k |-> k])
GAgg2   == NC > 0 /\ \E n \in {Pick(0 .. 4)} : \E is \in {[m \in 1 .. n |-> Pick(1 .. NC)]} : \E k \in {Pick(Elems)} :
             Aggregate(is, k, AggregateResult([m \in 1 .. n |-> coms[is[m]].pt], k)) /\ Log([op |-> "agg", is |-> is, k |-> k])
GOAdd2  == NO > 0 /\ \E i \in {Pick(1 .. NO)} : \E j \in {Pick({q \in 1 .. NO : opens[q].z = opens[i].z})} :
             AddOpening(i, j, AddOpeningResult(opens[i], opens[j])) /\ Log([op |-> "oadd", i |-> i, j |-> j])
(* verification: mostly of pairs that fit together *)
Fitting == {q \in (1 .. NC) \X (1 .. NO) : ValidOpening(coms[q[1]].pt, opens[q[2]], opens[q[2]].z)}
GVerify == NC > 0 /\ NO > 0 /\
  \E q \in {IF Fitting # {} /\ Pick(1 .. 3) > 1 THEN Pick(Fitting) ELSE <<Pick(1 .. NC), Pick(1 .. NO)>>} : \E z \in {IF Pick(1 .. 4) > 1 THEN opens[q[2]].z ELSE Pick(Elems)} :  Observe /\ Log([op |-> "verify", i |-> q[1], j |-> q[2], z |-> z])
GBatch == Fitting # {} /\
  \E n \in {Pick(1 .. 3)} : \E qs \in {[m \in 1 .. n |-> IF Pick(1 .. 6) > 1 THEN Pick(Fitting) ELSE <<Pick(1 .. NC), Pick(1 .. NO)>>]} :  Observe /\ Log([op |-> "batch", is |-> [m \in 1 .. n |-> qs[m][1]], js |-> [m \in 1 .. n |-> qs[m][2]],
                      zs |-> [m \in 1 .. n |-> opens[qs[m][2]].z]])
GForgeC == \E k \in {Pick(Elems)} : ForgeCom(k) /\ Log([op |-> "forgecom", k |-> k])
GForgeO == \E k \in {Pick(Elems)} : \E y \in {Pick(Elems)} : ForgeOpen(k, y) /\ Log([op |-> "forgeopen", k |-> k, y |-> y])
GAltY   == NO > 0 /\ \E i \in {Pick(1 .. NO)} : \E d \in {Pick(1 .. P - 1)} : AlterValue(i, d) /\ Log([op |-> "altery", i |-> i, d |-> d])
GAltW   == NO > 0 /\ \E i \in {Pick(1 .. NO)} : \E d \in {Pick(1 .. P - 1)} : AlterWitness(i, d) /\ Log([op |-> "alterw", i |-> i, k |-> d])

(* At the end the script is printed, once. *)
GEmit == Len(hist) = Depth /\ PrintT("@@SCRIPT " \o ToJson([p |-> P, secret |-> s0, n |-> 3, hist |-> hist]))
         /\ hist' = Append(hist, [op |-> "end"]) /\ UNCHANGED <<kvars, s0>>
GenNext == GEmit \/ (Len(hist) < Depth /\
  (\/ GCommit \/ GOpen \/ GOpenCom \/ GOpenCom \/ GPara \/ GAdd2 \/ GSub2 \/ GNeg2 \/ GMul2 \/ GAgg2 \/ GOAdd2 \/ GVerify \/ GVerify
   \/ GVerify \/ GBatch \/ GForgeC \/ GForgeO \/ GAltY \/ GAltW))

GenCorrect == CommitmentsTrue /\ HonestOpeningsVerify
=============================================================================
