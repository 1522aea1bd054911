------------------------------- MODULE MCFri -------------------------------
(* The protocol with every polynomial, every challenge and a prover that may cheat in one value of each      *)
(* layer and in the constant.                                                                               *)
EXTENDS Fri, TLC, FiniteSets
CONSTANTS P, MaxLen, Blowup, Gen, CheatLayers, Chals, Coefs
VARIABLES cheated
mcvars == <<fvars, cheated>>

Elems == 0 .. P - 1
Polys == {f \in UNION {[1 .. n -> Coefs] : n \in 0 .. MaxLen} : f = <<>> \/ f[Len(f)] # 0}
Root(n) == CHOOSE x \in 1 .. P - 1 : PrimitiveRoot(P, x, n)

Init == /\ phase = "idle" /\ fp = P /\ poly = <<>> /\ shift = 0 /\ w = 0 /\ size = 0 /\ layers = <<>> /\ roots = <<>>
        /\ chals = <<>> /\ const = 0 /\ positions = <<>> /\ domain = 0 /\ cheated = FALSE
Start == phase = "idle" /\ \E f \in Polys : StartProof(P, f, Blowup, Gen, Root(DomainSize(Len(f), Blowup))) /\ UNCHANGED cheated
Honest == CommitLayer(Len(roots)) /\ UNCHANGED cheated
(* a layer with one wrong value *)
Cheat ==
  /\ phase = "commit" /\ size > 1 /\ Len(layers) + 1 \in CheatLayers
  /\ \E i \in 1 .. size, d \in {1, P - 1} :
       layers' = Append(layers, [LayerValues EXCEPT ![i] = FAdd(P, @, d)])
  /\ cheated' = TRUE /\ roots' = Append(roots, Len(roots)) /\ phase' = "challenge"
  /\ UNCHANGED <<fp, poly, shift, w, size, chals, const, positions, domain>>
Challenge == \E r \in Chals : DrawChallenge(r) /\ UNCHANGED cheated
Const == SendConst(LastFold) /\ UNCHANGED cheated
CheatConst == SendConst(FAdd(P, LastFold, 1)) /\ cheated' = TRUE
AllPositions == DrawPositions([i \in 1 .. domain |-> i - 1]) /\ UNCHANGED cheated
Next == Start \/ Honest \/ Cheat \/ Challenge \/ Const \/ CheatConst \/ AllPositions

W0 == Root(domain)
Opened(q) == [es |-> [i \in 1 .. Len(layers) |-> layers[i][IndexIn(q, SizeOf(domain, i)) + 1]],
              ss |-> [i \in 1 .. Len(layers) |-> layers[i][MirrorIn(q, SizeOf(domain, i)) + 1]]]
PassesAt(q) == LET o == Opened(q) IN QueryFolds(P, Gen, W0, domain, chals, const, q, o.es, o.ss)
Rejecting == {q \in 0 .. domain - 1 : ~ PassesAt(q)}

Folded(i) == FoldValues(P, chals[i], SquareTimes(P, Gen, i - 1), SquareTimes(P, W0, i - 1), layers[i])
Consistent == \A i \in 1 .. Len(layers) : IF i < Len(layers) THEN Folded(i) = layers[i + 1] ELSE Folded(i) = <<const>>

Complete == (phase = "done" /\ ~ cheated) => Rejecting = {}
(* If every position passes, every layer is the fold of the one before and the constant is the last fold. *)
Sound == phase = "done" => ((Rejecting = {}) <=> Consistent)
(* The fold of the values is the values of the fold. *)
FoldsCommute == (phase = "commit" /\ ~ cheated /\ Len(layers) >= 1) => Folded(Len(layers)) = LayerValues
DegreeHalves == phase = "commit" => Len(poly) <= size
EndsConstant == (phase \in {"query", "done"}) => Len(poly) <= 1
=============================================================================
