------------------------------- MODULE MCKzg -------------------------------
(* All sessions over a small field and the exponent group, up to a number of commitments and openings.      *)
EXTENDS Kzg, TLC
CONSTANTS MaxComs, MaxOpens, Pool, N

Elems == 0 .. P - 1
Init == \E s \in Elems : secret = s /\ cap = N + 3 /\ coms = <<>> /\ opens = <<>>

ComIdx == 1 .. Len(coms)
OpIdx == 1 .. Len(opens)
DoCom ==
  \/ \E f \in Pool : Commit(f, CommitResult(f))
  \/ CommitPara(2, CommitParaResult(2))
  \/ \E i \in ComIdx, j \in ComIdx : Add(i, j, AddResult(coms[i].pt, coms[j].pt))
  \/ \E i \in ComIdx, j \in ComIdx : Sub(i, j, SubResult(coms[i].pt, coms[j].pt))
  \/ \E i \in ComIdx : Neg(i, NegResult(coms[i].pt))
  \/ \E i \in ComIdx, k \in {0, 2, 3} : Mul(i, k, MulResult(coms[i].pt, k))
  \/ \E is \in UNION {[1 .. n -> ComIdx] : n \in {0, 2, 3}}, k \in {0, 1, 3} :
        Aggregate(is, k, AggregateResult([m \in 1 .. Len(is) |-> coms[is[m]].pt], k))
  \/ ForgeCom(3)
DoOpen ==
  \/ \E f \in Pool, z \in Elems : Open(f, z, OpenResult(f, z))
  \/ \E i \in OpIdx, j \in OpIdx : AddOpening(i, j, AddOpeningResult(opens[i], opens[j]))
  \/ \E k \in {0, 1}, y \in {0, 1} : ForgeOpen(k, y)
  \/ \E i \in OpIdx : AlterValue(i, 1) \/ AlterWitness(i, 2)
Next == (Len(coms) < MaxComs /\ DoCom) \/ (Len(opens) < MaxOpens /\ DoOpen)

PoolDef == {<<>>, <<1>>, <<0, 1>>, <<2, 0, 1>>, <<1, 3, 0, 0>>, <<1, 1, 1, 1, 1>>}
AllCoefs == Elems
BatchSound == BatchCombination(AllCoefs)
RefusalsOnlyWhenTooLong == \A f \in Pool : ~ IsOk(CommitResult(f)) <=> Len(PTrim(P, f)) > cap
=============================================================================
