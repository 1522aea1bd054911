"""What is model checked, generated and recorded for each property."""
ASSUME = [
    "TLC, its Java operators for field, polynomial and BLS12-381 point arithmetic (checked against TLA+ definitions in MCOps), arkworks",
    "challenges are read from the code's own transcript; that they are random is assumed, what they depend on is checked",
]

F5 = {"P": 5, "Grp": 5, "N": 1, "Pool": "<-PoolDef"}
KINV = ["CommitmentsTrue", "HonestOpeningsVerify", "AlteredRejected", "BatchSound", "RefusalsOnlyWhenTooLong"]


def kmc(coms, opens, invs, **kw):
    c = dict(F5)
    c.update(MaxComs=coms, MaxOpens=opens)
    c.update(kw.pop("consts", {}))
    return dict(module="MCKzg", consts=c, invs=invs, **kw)


OPS = dict(module="MCOps", consts={"Primes": "{2, 3, 5}", "MaxLen": 3}, invs=["FieldAgrees", "PolyAgrees", "PolyPairsAgree", "QuotientIsExact"])
KGEN = [dict(module="GenKzg", init="GenInit", next="GenNext", consts={"P": 13, "Grp": 13, "Depth": 14}, invs=["GenCorrect"], num=40, depth=14, tag="kzg")]
KTR = [dict(name="kzg", trace="TraceKzg", gen=KGEN)]
PLAN = {}
for p, invs, quick, deep in [
    ("K01", ["CommitmentsTrue", "RefusalsOnlyWhenTooLong"], (2, 0), (3, 0)),
    ("K02", ["HonestOpeningsVerify"], (0, 1), (1, 1)),
    ("K03", ["AlteredRejected"], (0, 1), (1, 1)),
    ("K04", ["BatchSound"], (1, 1), (1, 2)),
    ("K05", ["CommitmentsTrue", "HonestOpeningsVerify"], (1, 1), (1, 2)),
    ("K06", ["CommitmentsTrue"], (1, 0), (2, 0)),
]:
    PLAN[p] = dict(traces=KTR, mc=[kmc(*quick, invs, tier="quick"), kmc(*deep, invs, tier="thorough", workers=6, timeout=5000), kmc(2, 0, ["CommitmentsTrue"])])
PLAN["K01"]["mc"].append(OPS)

TGEN = [dict(module="GenTranscript", init="GenInit", next="GenNext", consts={"Depth": 30, "Alphabet": 10}, num=25, depth=30, tag="transcript")]
TTR = dict(name="transcript", trace="TraceTranscript", gen=TGEN, consts={})
TINV = ["ChainIsSequence", "RefusesAlike", "IsOracle", "NoReuse"]


def tmc(items, ln, handles, indexed, **kw):
    return dict(module="MCTranscript", consts={"Items": items, "MaxLen": ln, "MaxHandles": handles, "Indexed": indexed}, invs=TINV, **kw)


PLAN["T01"] = dict(traces=[TTR], mc=[tmc("{1, 2}", 3, 2, "FALSE", tier="quick"), tmc("{1, 2}", 3, 2, "TRUE"), tmc("{1, 2}", 3, 3, "FALSE", tier="thorough", workers=6, timeout=4000)])

FGEN = [dict(module="GenFri", init="GenInit", next="GenNext", consts={"Depth": 6}, invs=[], num=150, depth=8, tag="fri")]
FTR = dict(name="fri", trace="TraceFri", consts={})
FRI = {"P": 5, "MaxLen": 2, "Blowup": 2, "Gen": 2, "CheatLayers": "{1, 2}", "Chals": "{0, 1, 2, 3, 4}", "Coefs": "{0, 1, 2, 3, 4}"}
FDEEP = {"P": 17, "MaxLen": 4, "Blowup": 2, "Gen": 3, "CheatLayers": "{1, 3}", "Chals": "{0, 3, 16}", "Coefs": "{0, 1, 5}"}


def fmc(invs):
    return [dict(module="MCFri", consts=FRI, invs=invs, workers=3), dict(module="MCFri", consts=FDEEP, invs=invs, tier="thorough", workers=6, timeout=6000)]


MERKLE = [dict(module="MCMerkle", consts={"Vals": "{0, 1, 2}", "MaxLeaves": 5}, invs=["Shape", "EveryLeafProvable", "AlteredFails", "MovedFails"]),
          dict(module="MCMerkle", consts={"Vals": "{0, 1, 2}", "MaxLeaves": 4}, invs=["RootsDiffer"]),
          dict(module="MCMerkle", consts={"Vals": "{0, 1}", "MaxLeaves": 9}, invs=["Shape", "EveryLeafProvable", "AlteredFails", "MovedFails"], tier="thorough", workers=6, timeout=6000)]
DEG = [dict(module="MCFriDegree", consts={"P": 5, "N": 4, "Gen": 2, "Rounds": 1}, invs=["DegreeTested"]),
       dict(module="MCFriDegree", consts={"P": 5, "N": 4, "Gen": 2, "Rounds": 2}, invs=["Vacuous"])]
PLAN["F01"] = dict(traces=[FTR], mc=fmc(["Complete", "DegreeHalves", "EndsConstant"]))
PLAN["F02"] = dict(traces=[FTR], mc=MERKLE)
PLAN["F03"] = dict(traces=[FTR], mc=fmc(["FoldsCommute", "DegreeHalves", "EndsConstant"]))
PLAN["F04"] = dict(traces=[dict(FTR, gen=FGEN)], mc=fmc(["Sound", "Complete"]) + DEG)
PLAN["F05"] = dict(traces=[dict(FTR, gen=FGEN), TTR], mc=fmc(["Sound"]) + [tmc("{1, 2}", 3, 2, "TRUE")])
PLAN["F06"] = dict(traces=[dict(FTR, gen=FGEN)], mc=fmc(["Sound"]))

PGEN = [dict(module="GenPlonk", init="GenInit", next="GenNext", consts={"MaxGates": 9, "Moves": 8}, invs=["Wiring"], num=40, depth=30, tag="plonk")]
PTR = dict(name="plonk", trace="TracePlonk", gen=PGEN)
PL = {"P": 13, "Grp": 13, "Vals": "{0, 2}", "PIs": "{0, 1}", "Targets": "<-OneRow", "Betas": "{1, 2}", "Others": "{5}", "Masks": "<-SomeMasks", "Secrets": "{7}", "KindsUsed": '{"add", "mul", "const"}'}


def pmc(invs):
    one = dict(PL, Sizes="{1}", MaxGates=1)
    two = dict(PL, Sizes="{2}", MaxGates=0, Vals="{1, 2}", PIs="{0}", Betas="{2, 3}")
    return [dict(module="MCPlonk", consts=one, invs=invs, workers=4, tier="quick"), dict(module="MCPlonk", consts=two, invs=invs, workers=4, tier="quick"),
            dict(module="MCPlonk", consts=dict(one, Vals="{0, 1, 2}", Others="{2, 5}", Betas="{1, 2, 6}", Secrets="{0, 7}"), invs=invs, workers=6, tier="thorough", timeout=6000),
            dict(module="MCPlonk", consts=dict(two, Vals="{0, 1, 2}", PIs="{0, 1}", Others="{5, 6}"), invs=invs, workers=6, tier="thorough", timeout=6000)]


for p, invs in [("P01", ["CompletenessStep", "CompletenessEnd", "LinearisationVanishes"]), ("P02", ["NoProofOfBroken", "PermutationSound"]),
                ("P03", ["CompletenessEnd", "AlteredRejected"]), ("P04", ["AlteredRejected"]), ("P05", ["SigmaFaithful", "RowsFaithful"]), ("P09", ["CompletenessEnd"])]:
    PLAN[p] = dict(traces=[PTR] + ([TTR] if p == "P04" else []), mc=pmc(invs))

HIDING = ["Hides", "OneIsTooFew", "HidesWithOneToSpare", "Told"]
PLAN["P09"]["mc"] = PLAN["P09"]["mc"] + [dict(module="MCMask", consts={"P": 5, "Grp": 5, "Sizes": "{1, 2}", "Degrees": "{1, 2, 3}"}, invs=HIDING, workers=2),
                                         dict(module="MCMask", consts={"P": 7, "Grp": 7, "Sizes": "{1, 2, 3}", "Degrees": "{1, 2, 3}"}, invs=HIDING, workers=4, tier="thorough")]

AGEN = [dict(module="GenParser", init="GenInit", next="GenNext", consts={"MaxFactors": 8}, invs=[], num=250, depth=20, tag="parser")]
ATR = dict(name="parser", trace="TraceParser", gen=AGEN)
PA = {"P": 3, "Grp": 5, "Factors": "<-TwoFactors", "RightFactors": "<-TwoFactors", "MaxTerms": 2, "MaxFactors": 2, "MaxCells": 5}
SIGNS = '{"x", "1", "-", "+", "*", "^", "=", " "}'


def amc(cut, invs):
    few = dict(PA, Cut=cut)
    wide = dict(PA, Cut=cut, P=5, Factors="<-FewFactors", RightFactors="<-FewFactors", MaxCells=5)
    return [dict(module="MCParser", consts=few, invs=invs, workers=4), dict(module="MCParser", consts=wide, invs=invs, workers=6, tier="thorough", timeout=6000)]


def grammar(n, **kw):
    return dict(module="MCGrammar", consts={"P": 5, "Grp": 5, "Alphabet": SIGNS, "MaxLen": n}, invs=["ReadsTheGrammar", "NormalForm"], **kw)


READING = dict(module="MCParser", consts=dict(PA, P=5, Factors="<-ManyFactors", RightFactors="<-FewFactors", MaxTerms=1, MaxFactors=1, Cut="FALSE"), invs=["ReadsBack", "BlanksVanish", "CaseVanishes", "CircuitSays"], workers=3)
PLAN["P06"] = dict(traces=[ATR], mc=[grammar(5, workers=3), READING, grammar(7, tier="thorough", workers=6, timeout=6000)] + amc("FALSE", ["ReadsBack", "BlanksVanish", "CaseVanishes", "CircuitSays"]))
PLAN["P07"] = dict(traces=[ATR], mc=amc("TRUE", ["CircuitSays", "CircuitForces", "ConclusionRight", "CutSeen"]))
PLAN["P08"] = dict(traces=[ATR], mc=[grammar(5, workers=3), READING])

NGEN = [dict(module="GenNova", init="GenInit", next="GenNext", consts={"P": 13, "Grp": 13, "Depth": 14}, invs=["GenCorrect"], num=60, depth=16, tag="nova")]
NTR = dict(name="nova", trace="TraceNova", gen=NGEN)
NO = {"P": 3, "Grp": 3, "Systems": "<-SmallSystems", "Secrets": "{2}", "Vals": "{0, 1, 2}", "Us": "<-TwoUs"}


def nmc(base, folds, invs, **kw):
    return dict(module="MCNova", consts=dict(NO, MaxBase=base, MaxFolds=folds, **kw.pop("consts", {})), invs=invs, **kw)


PLAN["N01"] = dict(traces=[NTR], mc=[nmc(2, 1, ["GoodIsSatisfied", "ZeroIsSatisfied"], workers=5), nmc(1, 2, ["GoodIsSatisfied"])])
PLAN["N02"] = dict(traces=[NTR], mc=[nmc(2, 0, ["BadStays"], workers=4), nmc(1, 2, ["AlterationsShow", "GoodIsSatisfied"], workers=2)])
IGEN = [dict(module="GenIvc", init="GenInit", next="GenNext", consts={"StepF": "<-Mod3", "Succ": "<-TermSucc", "AsScalar": "<-TermScalar", "Zero": 0, "One": "<-TermOne", "Depth": 24}, invs=["GenCorrect"], num=50, depth=26, tag="ivc")]
ITR = dict(name="ivc", trace="TraceIvc", gen=IGEN, consts={"P": "<-Prime", "Grp": '"G1"', "Q": "<-BasePrime", "StepF": "<-TStepF", "Succ": "<-TSucc", "AsScalar": "<-TAsScalar", "Zero": "<-StringZero", "One": "<-StringOne"})
IC = {"Kinds": '{"add"}', "Starts": "{0, 1}", "Ws": "{0, 1}", "OddWs": "{0}", "StepF": "<-Mod3", "Succ": "<-TermSucc", "AsScalar": "<-TermScalar", "Zero": 0, "One": "<-TermOne"}


def imc(chains, step, pool, invs, props=(), **kw):
    return dict(module="MCIvc", consts=dict(IC, NumChains=chains, MaxStep=step, MaxPool=pool, **kw.pop("consts", {})), invs=invs, props=list(props), **kw)


def imcs(invs, props=()):
    return [imc(2, 1, 1, invs, props, workers=4), imc(1, 2, 1, invs, props, workers=4), imc(2, 1, 2, invs, props, tier="thorough", workers=4, timeout=6000),
            imc(1, 2, 2, invs, props, tier="thorough", workers=6, timeout=6000, consts={"Kinds": '{"add", "mul"}'})]


PLAN["N03"] = dict(traces=[ITR, dict(NTR)], mc=imcs(["Complete", "HashIsCurrent"]))
PLAN["N04"] = dict(traces=[ITR, dict(NTR)], mc=imcs(["OnlyCurrent", "WholeProofs", "AlteredRejected"]))
PLAN["N05"] = dict(traces=[ITR], mc=imcs(["StateIsHistory", "PreparedIsRun", "RunningIsHistory", "HashIsCurrent"], ["RefusedChangeNothing"]))
PLAN["N06"] = dict(traces=[NTR, TTR, ITR], mc=[tmc("{1, 2}", 3, 2, "FALSE"), nmc(1, 2, ["GoodIsSatisfied"])])
