------------------------------ MODULE TraceFri ------------------------------
(* Recorded Merkle trees, FRI proofs and verdicts of the real code against Merkle and Fri.  The hash is an   *)
(* oracle: the trace contains the questions put to the real hash, and Ask checks that they are the questions  *)
(* the specification would put.                                                                             *)
EXTENDS Fri, TraceBase, FiniteSets
VARIABLES sc, l,
          tree,    \* the last tree built: [leaves, levels]
          hashes,  \* answers of the hash so far
          opened   \* decommitments of the current proof
tvars == <<sc, l, tree, hashes, opened, fvars>>

S == Trace[sc]
E == S.events[l]
FP == S.p
Zero == FE(FP, 0)
NoTree == [leaves |-> <<>>, levels |-> <<>>]

TraceInit ==
  /\ sc \in 1 .. Len(Trace) /\ l = 1 /\ tree = NoTree /\ hashes = {} /\ opened = <<>>
  /\ phase = "idle" /\ fp = "" /\ poly = <<>> /\ shift = "0" /\ w = "0" /\ size = 0 /\ layers = <<>> /\ roots = <<>>
  /\ chals = <<>> /\ const = "0" /\ positions = <<>> /\ domain = 0
Is(op) == l <= Len(S.events) /\ E.op = op /\ l' = l + 1 /\ UNCHANGED sc
Chk(prop, what, ok) == Expect(prop, S.id, l, what, ok)
ChkIs(prop, what, got, want) == ExpectIs(prop, S.id, l, what, got, want)
Chks(props, what, ok) == \A i \in 1 .. Len(props) : Chk(props[i], what, ok)
Ask(ok) == Assert(ok, <<"the harness asked the oracle another question", S.id, l>>)
Ok(res) == Has(res, "ok")

----------------------------------------------------------------------------
(* Merkle trees *)
TTree ==
  /\ Is("tree")
  /\ LET padded == Padded(E.leaves, Zero)
         lv1 == [i \in 1 .. Len(padded) |-> E.lq[i][2]]
         levels == <<lv1>> \o [k \in 1 .. Len(E.nq) |-> [j \in 1 .. Len(E.nq[k]) |-> E.nq[k][j][3]]]
         asked == {<<1, E.lq[i][1], "", E.lq[i][2]>> : i \in 1 .. Len(E.lq)}
                  \cup UNION {{<<2, E.nq[k][j][1], E.nq[k][j][2], E.nq[k][j][3]>> : j \in 1 .. Len(E.nq[k])} : k \in 1 .. Len(E.nq)}
         all == hashes \cup asked
     IN
     /\ Ask(/\ Len(E.lq) = Len(padded) /\ Len(E.nq) = Log2(Len(padded)) /\ \A i \in 1 .. Len(padded) : E.lq[i][1] = padded[i]
            /\ \A k \in 1 .. Len(E.nq) : \A j \in 1 .. Len(E.nq[k]) : E.nq[k][j][1] = levels[k][2 * j - 1] /\ E.nq[k][j][2] = levels[k][2 * j])
     /\ Chk("F02", "a tree is built", Ok(E.res))
     /\ Ok(E.res) => /\ ChkIs("F02", "leaves padded with zeros to a power of two", E.res.ok.leaves, padded)
                     /\ ChkIs("F02", "root of the tree", E.res.ok.root, RootOf(levels))
     /\ S.big => Chk("F02", "different leaves or pairs of nodes hash differently", Cardinality({h[4] : h \in all}) = Cardinality(all))
     /\ tree' = [leaves |-> padded, levels |-> levels]
     /\ hashes' = IF S.big THEN all ELSE {}
  /\ UNCHANGED <<opened, fvars>>

THash ==   \* single questions: [k, a, b, h]
  /\ Is("hashes")
  /\ LET all == hashes \cup {<<E.q[i].k, E.q[i].a, E.q[i].b, E.q[i].h>> : i \in 1 .. Len(E.q)} IN
     /\ S.big => Chk("F02", "different leaves or pairs of nodes hash differently", Cardinality({h[4] : h \in all}) = Cardinality(all))
     /\ hashes' = all
  /\ UNCHANGED <<tree, opened, fvars>>

THashCrowd ==
  /\ Is("hashcrowd")
  /\ Chk("F02", "many different leaves or pairs of nodes hash differently", E.one = E.n /\ E.two = E.n)
  /\ UNCHANGED <<tree, opened, hashes, fvars>>

TProof ==
  /\ Is("proof")
  /\ IF E.i < Len(tree.leaves)
     THEN LET want == ProofOf(tree.levels, tree.leaves, E.i) IN
          /\ Chk("F02", "every leaf has a proof", Ok(E.res))
          /\ Ok(E.res) => ChkIs("F02", "the proof of a leaf", E.res.ok, want)
     ELSE Chk("F02", "no proof for a position outside the tree", ~ Ok(E.res))
  /\ UNCHANGED <<tree, hashes, opened, fvars>>

(* Climbing with the recorded answers. *)
RECURSIVE ClimbQ(_, _, _, _, _)
ClimbQ(j, cur, path, q, k) ==
  IF k > Len(path) THEN cur
  ELSE LET o == Ordered(j, cur, path[k]) IN
       IF Ask(q[k][1] = o[1] /\ q[k][2] = o[2]) THEN ClimbQ(j \div 2, q[k][3], path, q, k + 1) ELSE ""
Leads(j, m) == ClimbQ(j, m.h0, m.path, m.q, 1) = m.root

TCheck ==
  /\ Is("check")
  /\ LET m == E.m
         inTree == Len(m.path) + 1 = Len(tree.levels) /\ m.index < Len(tree.leaves)
         plain == [index |-> m.index, leaf |-> m.leaf, path |-> m.path, root |-> m.root]
     IN
     /\ ChkIs("F02", "verdict on a Merkle proof", E.res, [ok |-> Leads(m.index, m)])
     /\ (S.big /\ inTree /\ m.root = RootOf(tree.levels) /\ Ok(E.res)) =>
          Chk("F02", "only the tree's own proof of a position verifies", E.res.ok <=> plain = ProofOf(tree.levels, tree.leaves, m.index))
  /\ UNCHANGED <<tree, hashes, opened, fvars>>

----------------------------------------------------------------------------
(* An honest proof, step by step *)
TStart ==
  /\ Is("start")
  /\ Chk("F01", "a proof is generated", Ok(E.res))
  /\ StartProof(FP, E.f, E.blowup, S.gen, E.w)
  /\ Ask(PrimitiveRoot(FP, E.w, domain'))
  /\ opened' = <<>> /\ UNCHANGED <<tree, hashes>>
TLayer ==
  /\ Is("layer")
  /\ CommitLayer(E.root)
  /\ Ask(E.evals = LayerValues)
  /\ ChkIs("F03", "a layer commits to the values of the folded polynomial", E.root, E.treeroot)
  /\ UNCHANGED <<tree, hashes, opened>>
TChallenge ==
  /\ Is("challenge")
  /\ Ask(E.fed = FedAtChallenge)
  /\ DrawChallenge(E.r)
  /\ UNCHANGED <<tree, hashes, opened>>
TConst ==
  /\ Is("const")
  /\ ChkIs("F03", "the constant is the last fold", E.c, LastFold)
  /\ SendConst(E.c)
  /\ UNCHANGED <<tree, hashes, opened>>
TPositions ==
  /\ Is("positions")
  /\ Ask(E.fed = FedAtPositions)
  /\ DrawPositions([i \in 1 .. Len(E.cs) |-> FLow64Mod(FP, E.cs[i], domain)])
  /\ UNCHANGED <<tree, hashes, opened>>

PathOk(m, i, idx, root) ==
  /\ m.i = ToString(idx) /\ m.root = root /\ Len(m.path) = Log2(SizeOf(domain, i)) /\ Leads(idx, m)
TQuery ==
  /\ Is("query")
  /\ LET q == positions[E.k]
         n == Len(layers)
         d == E.d
         full == Len(d.e) = n /\ Len(d.s) = n /\ Len(d.ep) = n /\ Len(d.sp) = n
     IN
     /\ Chk("F03", "a query opens every layer", full)
     /\ full =>
        \A i \in 1 .. n :
          LET idx == IndexIn(q, SizeOf(domain, i)) mir == MirrorIn(q, SizeOf(domain, i)) IN
          /\ ChkIs("F03", "position opened", d.ep[i].i, ToString(idx))
          /\ ChkIs("F03", "mirror position opened", d.sp[i].i, ToString(mir))
          /\ ChkIs("F05", "positions come from the transcript", <<d.ep[i].i, d.sp[i].i>>, <<ToString(idx), ToString(mir)>>)
          /\ ChkIs("F03", "value opened", <<d.e[i], d.ep[i].x>>, <<layers[i][idx + 1], layers[i][idx + 1]>>)
          /\ ChkIs("F03", "mirror value opened", <<d.s[i], d.sp[i].x>>, <<layers[i][mir + 1], layers[i][mir + 1]>>)
          /\ Chk("F03", "authentication path", PathOk(d.ep[i], i, idx, roots[i]))
          /\ Chk("F03", "mirror authentication path", PathOk(d.sp[i], i, mir, roots[i]))
     /\ opened' = IF full THEN Append(opened, d) ELSE opened
  /\ UNCHANGED <<tree, hashes, fvars>>

(* The challenge with which the opened values of layer i fold into the next, as far as one query tells.      *)
(* (Where the code's folding is not by one challenge, that is F03's, not F05's.)                            *)
UsedChallenge(i, k) ==
  LET d == opened[k]
      sz == SizeOf(domain, i)
      at == CHOOSE j \in 0 .. sz - 1 : ToString(j) = d.ep[i].i
      x == PointAt(FP, SquareTimes(FP, S.gen, i - 1), SquareTimes(FP, E.w, i - 1), at)
      next == IF i = Len(layers) THEN const ELSE d.e[i + 1]
      diff == FInv(FP, FSub(FP, d.e[i], d.s[i]))
      half == FInv(FP, FAdd(FP, FE(FP, 1), FE(FP, 1)))
  IN  FMul(FP, FMul(FP, FSub(FP, next, FMul(FP, half, FAdd(FP, d.e[i], d.s[i]))), FAdd(FP, x, x)), diff)
Telling(i) == {k \in 1 .. Len(opened) : opened[k].e[i] # opened[k].s[i] /\ \E j \in 0 .. SizeOf(domain, i) - 1 : ToString(j) = opened[k].ep[i].i}
TFinish ==
  /\ Is("finish")
  /\ ChkIs("F01", "an honest proof is accepted", E.verdict, [ok |-> TRUE])
  /\ ChkIs("F01", "the proof names its domain, coset and number of queries", <<E.n, E.coset, E.nq>>, <<ToString(domain), S.gen, ToString(Len(positions))>>)
  /\ ChkIs("F03", "number of layers and queries", <<E.nroots, E.ndl>>, <<Len(layers), Len(positions)>>)
  /\ Chk("F03", "the number of queries asked for", Len(positions) = E.asked)
  /\ \A i \in 1 .. Len(layers) :
       LET used == {UsedChallenge(i, k) : k \in Telling(i)} IN
       Chk("F05", "the prover folds with the transcript's challenge", Cardinality(used) = 1 => used = {chals[i]})
  /\ UNCHANGED <<tree, hashes, opened, fvars>>

----------------------------------------------------------------------------
(* Any proof object and the verifier's verdict *)
ShapeOk(pr) ==
  /\ pr.logn >= 0 /\ pr.logn <= S.two /\ pr.coset = S.gen
  /\ Len(pr.roots) = pr.logn /\ pr.nq = ToString(Len(pr.dl))
  /\ \A k \in 1 .. Len(pr.dl) :
       LET d == pr.dl[k] IN Len(d.e) = pr.logn /\ Len(d.s) = pr.logn /\ Len(d.ep) = pr.logn /\ Len(d.sp) = pr.logn
OpenOk(m, x, n, i, idx, root) ==
  /\ m.i = ToString(idx) /\ m.x = x /\ m.root = root /\ Len(m.path) = Log2(SizeOf(n, i)) /\ Leads(idx, m)
QueryOk(pr, rs, n, wn, q, d) ==
  /\ \A i \in 1 .. pr.logn :
       /\ OpenOk(d.ep[i], d.e[i], n, i, IndexIn(q, SizeOf(n, i)), pr.roots[i])
       /\ OpenOk(d.sp[i], d.s[i], n, i, MirrorIn(q, SizeOf(n, i)), pr.roots[i])
  /\ QueryFolds(FP, S.gen, wn, n, rs, pr.c, q, d.e, d.s)
Accept(pr, orc) ==
  /\ ShapeOk(pr)
  /\ LET n == 2 ^ pr.logn IN
     /\ Ask(orc.fed = <<Zero>> \o pr.roots \o <<pr.c>> /\ Len(orc.rs) = Len(pr.roots) /\ ToString(Len(orc.cs)) = pr.nq /\ PrimitiveRoot(FP, pr.w, n))
     /\ \A k \in 1 .. Len(pr.dl) : QueryOk(pr, orc.rs, n, pr.w, FLow64Mod(FP, orc.cs[k], n), pr.dl[k])
TVerify ==
  /\ Is("verify")
  /\ LET want == Accept(E.pr, E.orc) IN
     IF ~ ShapeOk(E.pr) THEN
       /\ Chk("F06", "a malformed proof is answered", Ok(E.verdict))
       /\ ChkIs("F06", "a malformed proof is refused", E.verdict, [ok |-> FALSE])
       /\ ChkIs("F04", "a malformed proof is refused", E.verdict, [ok |-> FALSE])
     ELSE
       /\ Chk("F06", "a proof is answered", Ok(E.verdict))
       /\ ChkIs("F04", "verdict on a proof", E.verdict, [ok |-> want])
       /\ ("F05" \in {E.props[i] : i \in 1 .. Len(E.props)}) => ChkIs("F05", "challenges and positions bind what was committed", E.verdict, [ok |-> want])
  /\ UNCHANGED <<tree, hashes, opened, fvars>>

(* A prover that commits to a function that is no polynomial of less than half the domain's degree. *)
TArbitrary ==
  /\ Is("arbitrary")
  /\ LET len == Len(PInterp(FP, E.values, E.w)) IN
     Chk("F04", "a committed function of full degree is rejected", (2 * len > Len(E.values)) => E.verdict = [ok |-> FALSE])
  /\ UNCHANGED <<tree, hashes, opened, fvars>>

TCrash == Is("crash") /\ (\A p \in {"F01", "F02", "F03", "F04", "F05", "F06"} : Report(p, S.id, l, E.why)) /\ UNCHANGED <<tree, hashes, opened, fvars>>
TraceNext ==
  \/ TTree \/ THash \/ THashCrowd \/ TProof \/ TCheck \/ TStart \/ TLayer \/ TChallenge \/ TConst \/ TPositions \/ TQuery \/ TFinish
  \/ TVerify \/ TArbitrary \/ TCrash
=============================================================================
