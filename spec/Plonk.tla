------------------------------- MODULE Plonk -------------------------------
(* PLONK (crate plonk): the prover's five rounds and the verifier's equation for the circuits of PlonkCircuit. *)
(*                                                                                                          *)
(* Commitments are of KZG: a polynomial at the secret.  Challenges are an argument of the actions that draw  *)
(* them; what they depend on is the sequence Fed*.                                                          *)
EXTENDS PlonkCircuit

----------------------------------------------------------------------------
(* A proof: [a, b, c, z, tlo, tmid, thi, wx, wwx: group elements; ba, bb, bc, bs1, bs2, bzw, u: scalars;     *)
(* deg: the degree of a part of the quotient].                                                              *)
ComPara(v) == GMul(Grp, v, GGen(Grp))
(* What has been fed when the challenges are drawn: beta and gamma, alpha, zeta, v, u. *)
Fed1(pf) == <<pf.a, pf.b, pf.c>>
Fed2(pf) == <<pf.z>>
Fed3(pf) == <<pf.tlo, pf.tmid, pf.thi>>
Fed4(pf) == <<ComPara(pf.ba), ComPara(pf.bb), ComPara(pf.bc), ComPara(pf.bs1), ComPara(pf.bs2), ComPara(pf.bzw)>>
Fed5(pf) == <<pf.wx, pf.wwx>>

(* The verification equation under the secret s and the challenges ch = [beta, gamma, alpha, zeta, v, u]. *)
Equation(st, s, pf, ch) ==
  LET z == ch.zeta
      zh == FSub(P, FPow(P, z, st.n), F1)
      l1 == FMul(P, zh, FInv(P, FMul(P, FE(P, st.n), FSub(P, z, F1))))
      a2 == FMul(P, ch.alpha, ch.alpha)
      ev(x) == PEval(P, st.f[x], s)
      A1 == Sum(<<pf.ba, FMul(P, ch.beta, pf.bs1), ch.gamma>>)
      B1 == Sum(<<pf.bb, FMul(P, ch.beta, pf.bs2), ch.gamma>>)
      r0 == Sum(<<PEval(P, st.f.pi, z), FNeg(P, FMul(P, l1, a2)), FNeg(P, Prod(<<ch.alpha, A1, B1, FAdd(P, pf.bc, ch.gamma), pf.bzw>>))>>)
      line1 == Sum(<<Prod(<<ev("m"), pf.ba, pf.bb>>), FMul(P, ev("l"), pf.ba), FMul(P, ev("r"), pf.bb), FMul(P, ev("o"), pf.bc), ev("q")>>)
      zc == Sum(<<Prod(<<ch.alpha, Sum(<<pf.ba, FMul(P, ch.beta, z), ch.gamma>>),
                         Sum(<<pf.bb, Prod(<<ch.beta, st.k1, z>>), ch.gamma>>), Sum(<<pf.bc, Prod(<<ch.beta, st.k2, z>>), ch.gamma>>)>>),
                  FMul(P, l1, a2), ch.u>>)
      s3c == Prod(<<A1, B1, ch.alpha, ch.beta, pf.bzw>>)
      shift == FMul(P, FPow(P, z, pf.deg), z)
      v == [i \in 1 .. 5 |-> FPow(P, ch.v, i)]
      e == Sum(<<FNeg(P, r0), FMul(P, v[1], pf.ba), FMul(P, v[2], pf.bb), FMul(P, v[3], pf.bc), FMul(P, v[4], pf.bs1), FMul(P, v[5], pf.bs2), FMul(P, ch.u, pf.bzw)>>)
      plain == Sum(<<line1, FNeg(P, FMul(P, s3c, ev("s3"))), FMul(P, v[4], ev("s1")), FMul(P, v[5], ev("s2")), FNeg(P, e)>>)
  IN  GMsm(Grp, <<FSub(P, s, z), FMul(P, ch.u, FSub(P, s, FMul(P, z, st.w)))>>, <<pf.wx, pf.wwx>>)
      = GMsm(Grp, <<plain, zc, FNeg(P, zh), FNeg(P, FMul(P, zh, shift)), FNeg(P, FMul(P, zh, FMul(P, shift, shift))), v[1], v[2], v[3]>>,
                  <<GGen(Grp), pf.z, pf.tlo, pf.tmid, pf.thi, pf.a, pf.b, pf.c>>)
(* The verifier: the challenge named by the proof is the transcript's, and the equation holds. *)
Verdict(st, s, pf, ch) == pf.u = ch.u /\ Equation(st, s, pf, ch)

----------------------------------------------------------------------------
(* The prover. *)
VanishTimes(n, mask) == PSub(P, [i \in 1 .. n + Len(mask) |-> IF i > n THEN mask[i - n] ELSE F0], mask)
Masked(f, n, mask) == PAdd(P, f, VanishTimes(n, mask))
(* What masks f in a polynomial: <<the mask, what is no multiple of X^n - 1>> *)
MaskOf(g, f, n) == PDivVanish(P, PSub(P, g, f), n)
(* One row's factor of the permutation product, above and below. *)
Above(t, i, st, beta, gamma) ==
  LET x == Root(st.w, i - 1) IN
  Prod(<<Sum(<<t.a[i], FMul(P, beta, x), gamma>>), Sum(<<t.b[i], Prod(<<beta, st.k1, x>>), gamma>>), Sum(<<t.c[i], Prod(<<beta, st.k2, x>>), gamma>>)>>)
Below(t, i, beta, gamma) ==
  Prod(<<Sum(<<t.a[i], FMul(P, beta, t.s1[i]), gamma>>), Sum(<<t.b[i], FMul(P, beta, t.s2[i]), gamma>>), Sum(<<t.c[i], FMul(P, beta, t.s3[i]), gamma>>)>>)
RECURSIVE AccFrom(_, _, _, _, _, _)
AccFrom(t, st, beta, gamma, i, acc) ==
  IF i > st.n THEN acc
  ELSE AccFrom(t, st, beta, gamma, i + 1,
         Append(acc, Prod(<<acc[i - 1], Above(t, i - 1, st, beta, gamma), FInv(P, Below(t, i - 1, beta, gamma))>>)))
TableOf(st) == Table(st.gates, st.n, st.w, st.k1, st.k2)
(* (bound to a value before the recursion, which TLC would otherwise evaluate it anew in) *)
Accumulator(st, beta, gamma) == CHOOSE r \in {AccFrom(t, st, beta, gamma, 2, <<F1>>) : t \in {TableOf(st)}} : TRUE
(* Factors that vanish stop the prover. *)
Unlucky(st, beta, gamma) == LET t == TableOf(st) IN \E i \in 1 .. st.n : Below(t, i, beta, gamma) = F0
AccumulatorCloses(st, beta, gamma) ==
  LET t == TableOf(st) acc == Accumulator(st, beta, gamma) IN
  FMul(P, acc[st.n], Above(t, st.n, st, beta, gamma)) = Below(t, st.n, beta, gamma)

Lin(c0, c1) == PTrim(P, <<c0, c1>>)
Const(c) == PTrim(P, <<c>>)
ShiftArg(f, w) == [i \in 1 .. Len(f) |-> FMul(P, f[i], FPow(P, w, i - 1))]
GateLine(st, a, b, c) ==
  PAdd(P, PAdd(P, PAdd(P, PMul(P, PMul(P, a, b), st.f.m), PMul(P, a, st.f.l)), PAdd(P, PMul(P, b, st.f.r), PMul(P, c, st.f.o))), PAdd(P, st.f.q, st.f.pi))
PermLine(st, a, b, c, z, beta, gamma) ==
  PSub(P, PMul(P, z, PMul(P, PAdd(P, a, Lin(gamma, beta)), PMul(P, PAdd(P, b, Lin(gamma, FMul(P, beta, st.k1))), PAdd(P, c, Lin(gamma, FMul(P, beta, st.k2)))))),
          PMul(P, ShiftArg(z, st.w), PMul(P, PAdd(P, PAdd(P, a, PScale(P, beta, st.f.s1)), Const(gamma)),
            PMul(P, PAdd(P, PAdd(P, b, PScale(P, beta, st.f.s2)), Const(gamma)), PAdd(P, PAdd(P, c, PScale(P, beta, st.f.s3)), Const(gamma))))))
L1(st) == PInterp(P, [i \in 1 .. st.n |-> IF i = 1 THEN F1 ELSE F0], st.w)
StartLine(st, z) == PMul(P, PSub(P, z, Const(F1)), L1(st))
Divides(f, n) == PDivVanish(P, f, n)[2] = <<>>
QuotientOf(f, n) == PDivVanish(P, f, n)[1]
(* Three parts of at most ceil(len / 3) coefficients. *)
PartLen(f) == (Len(f) + 2) \div 3
Part(f, k) == LET m == PartLen(f) IN PTrim(P, [i \in 1 .. m |-> Coef(P, f, k * m + i)])

VARIABLES secret,   \* of the setup
          gates,    \* the circuit being built
          st,       \* the compiled circuit
          step,     \* "build", "compiled", "r1" .. "r5", "proof", "refused"
          pr,       \* the prover's polynomials
          pf,       \* the messages sent so far
          ch        \* the challenges drawn so far
pvars == <<secret, gates, st, step, pr, pf, ch>>

AddGate(g) == step = "build" /\ gates' = Append(gates, g) /\ UNCHANGED <<secret, st, step, pr, pf, ch>>
Compile(n, w, k1, k2) ==
  /\ step = "build" /\ gates # <<>> /\ IsPow2(n) /\ n >= Len(gates) /\ PrimitiveRoot(w, n) /\ CosetsDisjoint(k1, k2, n) /\ WellFormed(gates, n)
  /\ st' = Compiled(gates, n, w, k1, k2) /\ step' = "compiled" /\ UNCHANGED <<secret, gates, pr, pf, ch>>

Put(r, more) == [x \in DOMAIN r \cup DOMAIN more |-> IF x \in DOMAIN more THEN more[x] ELSE r[x]]

Round1(ma, mb, mc) ==
  /\ step = "compiled"
  /\ LET a == Masked(st.f.a, st.n, ma) b == Masked(st.f.b, st.n, mb) c == Masked(st.f.c, st.n, mc) IN
     /\ pr' = [a |-> a, b |-> b, c |-> c]
     /\ pf' = [a |-> ComOf(secret, a), b |-> ComOf(secret, b), c |-> ComOf(secret, c)]
  /\ step' = "r1" /\ UNCHANGED <<secret, gates, st, ch>>
Round2(beta, gamma, mz) ==
  /\ step = "r1" /\ ~ Unlucky(st, beta, gamma)
  /\ LET z == Masked(PInterp(P, Accumulator(st, beta, gamma), st.w), st.n, mz) IN
     pr' = Put(pr, [z |-> z]) /\ pf' = Put(pf, [z |-> ComOf(secret, z)])
  /\ ch' = [beta |-> beta, gamma |-> gamma] /\ step' = "r2" /\ UNCHANGED <<secret, gates, st>>
Round3(alpha) ==
  /\ step = "r2"
  /\ LET g == GateLine(st, pr.a, pr.b, pr.c) p == PermLine(st, pr.a, pr.b, pr.c, pr.z, ch.beta, ch.gamma) s == StartLine(st, pr.z) n == st.n IN
     IF ~ (Divides(g, n) /\ Divides(p, n) /\ Divides(s, n)) THEN step' = "refused" /\ UNCHANGED <<pr, pf>>
     ELSE LET t == PAdd(P, QuotientOf(g, n), PAdd(P, PScale(P, alpha, QuotientOf(p, n)), PScale(P, FMul(P, alpha, alpha), QuotientOf(s, n)))) IN
          /\ pr' = Put(pr, [t |-> t]) /\ step' = "r3"
          /\ pf' = Put(pf, [tlo |-> ComOf(secret, Part(t, 0)), tmid |-> ComOf(secret, Part(t, 1)), thi |-> ComOf(secret, Part(t, 2)), deg |-> PartLen(t) - 1])
  /\ ch' = Put(ch, [alpha |-> alpha]) /\ UNCHANGED <<secret, gates, st>>
Round4(zeta) ==
  /\ step = "r3"
  /\ pf' = Put(pf, [ba |-> PEval(P, pr.a, zeta), bb |-> PEval(P, pr.b, zeta), bc |-> PEval(P, pr.c, zeta),
                    bs1 |-> PEval(P, st.f.s1, zeta), bs2 |-> PEval(P, st.f.s2, zeta), bzw |-> PEval(P, pr.z, FMul(P, zeta, st.w))])
  /\ ch' = Put(ch, [zeta |-> zeta]) /\ step' = "r4" /\ UNCHANGED <<secret, gates, st, pr>>
(* The linearised constraint, a polynomial that vanishes at zeta. *)
Linearised ==
  LET z == ch.zeta
      zh == FSub(P, FPow(P, z, st.n), F1)
      l1 == PEval(P, L1(st), z)
      m == PartLen(pr.t)
      zm == FPow(P, z, m)
      line1 == PAdd(P, PAdd(P, PScale(P, FMul(P, pf.ba, pf.bb), st.f.m), PScale(P, pf.ba, st.f.l)),
                 PAdd(P, PAdd(P, PScale(P, pf.bb, st.f.r), PScale(P, pf.bc, st.f.o)), PAdd(P, st.f.q, Const(PEval(P, st.f.pi, z)))))
      line2 == PScale(P, Prod(<<ch.alpha, Sum(<<pf.ba, FMul(P, ch.beta, z), ch.gamma>>), Sum(<<pf.bb, Prod(<<ch.beta, st.k1, z>>), ch.gamma>>),
                           Sum(<<pf.bc, Prod(<<ch.beta, st.k2, z>>), ch.gamma>>)>>), pr.z)
      line3 == PScale(P, Prod(<<ch.alpha, Sum(<<pf.ba, FMul(P, ch.beta, pf.bs1), ch.gamma>>), Sum(<<pf.bb, FMul(P, ch.beta, pf.bs2), ch.gamma>>), pf.bzw>>),
                    PAdd(P, PScale(P, ch.beta, st.f.s3), Const(FAdd(P, pf.bc, ch.gamma))))
      line4 == PScale(P, Prod(<<ch.alpha, ch.alpha, l1>>), PSub(P, pr.z, Const(F1)))
      line5 == PScale(P, zh, PAdd(P, Part(pr.t, 0), PAdd(P, PScale(P, zm, Part(pr.t, 1)), PScale(P, FMul(P, zm, zm), Part(pr.t, 2)))))
  IN  PSub(P, PAdd(P, PSub(P, PAdd(P, line1, line2), line3), line4), line5)
Round5(v) ==
  /\ step = "r4"
  /\ LET z == ch.zeta
         whole == PAdd(P, Linearised, PAdd(P, PAdd(P, PScale(P, v, pr.a), PScale(P, FPow(P, v, 2), pr.b)),
                    PAdd(P, PScale(P, FPow(P, v, 3), pr.c), PAdd(P, PScale(P, FPow(P, v, 4), st.f.s1), PScale(P, FPow(P, v, 5), st.f.s2)))))
     IN  pf' = Put(pf, [wx |-> ComOf(secret, PQuotient(P, whole, z)), wwx |-> ComOf(secret, PQuotient(P, pr.z, FMul(P, z, st.w)))])
  /\ ch' = Put(ch, [v |-> v]) /\ step' = "r5" /\ UNCHANGED <<secret, gates, st, pr>>
Finish(u) == step = "r5" /\ pf' = Put(pf, [u |-> u]) /\ ch' = Put(ch, [u |-> u]) /\ step' = "proof" /\ UNCHANGED <<secret, gates, st, pr>>

----------------------------------------------------------------------------
(* Properties of the prover and verifier together. *)

(* P01 *)
CompletenessStep == step = "refused" => ~ (Satisfied(gates, st.n) /\ IsPermutation(gates, st.n))
CompletenessEnd  == step = "proof" => Verdict(st, secret, pf, ch)
(* The linearised constraint vanishes at zeta, whatever the challenges. *)
LinearisationVanishes == step = "r4" => PEval(P, Linearised, ch.zeta) = F0
(* P02: a proof is only made of a satisfied circuit, or the permutation challenges were unlucky. *)
NoProofOfBroken == step \in {"r3", "r4", "r5", "proof"} => \A i \in 1 .. Len(gates) : GateHolds(gates[i])
(* P05: the permutation polynomials give every cell its own name exactly if the wiring is a permutation. *)
SigmaFaithful ==
  step = "compiled" =>
    LET t == TableOf(st)
        names == {Name(x, st.w, st.k1, st.k2) : x \in Cells(st.n)}
        images == {t.s1[i] : i \in 1 .. st.n} \cup {t.s2[i] : i \in 1 .. st.n} \cup {t.s3[i] : i \in 1 .. st.n}
    IN  Cardinality(names) = 3 * st.n /\ (images = names <=> IsPermutation(gates, st.n))
RowsFaithful ==
  step = "compiled" => \A x \in Cols : PEvalCoset(P, st.f[x], F1, st.w, st.n) = TableOf(st)[x] /\ Len(st.f[x]) <= st.n

=============================================================================
