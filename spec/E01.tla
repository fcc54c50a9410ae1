-------------------------------- MODULE E01 ---------------------------------
(* Manakov continuous spectrum equals the scattering data of the scheme.     *)
EXTENDS Flow, Manakov, Signals
N == Tier(360, 2400)
Dis == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12>>
(* products of exact exponentials *)
Unitary == {"BO", "CF4_2", "FTES4_suzuki"}
Call1(i) ==
  LET k == <<Seed, "E01", i>>
      d == Dis[1 + ((i - 1) % 12)]
      sz == Sizes(k, i, ManDegree(d), ManUp(d))  D == sz[1]  M == sz[2]
      kap == IF IRand(<<k, "kap">>, 2) = 0 THEN 1 ELSE -1
      t0 == Uniform(<<k, "T0">>, -4, 2)  wid == Uniform(<<k, "w">>, "0.5", 6)
      x0 == Uniform(<<k, "X0">>, -3, 2)  xw == Uniform(<<k, "xw">>, "0.2", 4)
  IN [op |-> "manakovv", q |-> NFmt(Peculiar(<<k, 1>>, NoisyPulse(<<k, 1>>, D, Uniform(<<k, "amp">>, "0.2", "1.3")))), q2 |-> NFmt(Peculiar(<<k, 2>>, NoisyPulse(<<k, 2>>, D, Uniform(<<k, "amp2">>, "0.2", "1.3")))),
      T |-> RFmt(<<t0, t0 \oplus wid>>), M |-> M, XI |-> RFmt(<<x0, x0 \oplus xw>>),
      cs |-> 1, K |-> -1, kappa |-> kap, o_discretization |-> d, o_contspec_type |-> 2, o_normalization_flag |-> 1]
Sess(i) == LET c == Call1(i) IN <<c, With(c, [o_contspec_type |-> 0]), With(c, [o_contspec_type |-> 1, o_normalization_flag |-> 0])>>
Expected(a) ==
  LET q == NParse(a.q)  pr == ManProblem(a.o_discretization, q, NParse(a.q2), NParse(a.T), a.kappa, Len(q))  g == Vec(MGrid(NParse(a.XI), a.M))
  IN MLayout(a.o_contspec_type, Vec([j \in 1..a.M |-> ABB(pr, g[j])]))
J(h, a, r) ==
  LET cs == NParse(r.contspec)  M == a.M IN
  [success |-> r.ret = 0,
   scattering_data |-> r.ret = 0 => VNear(cs, Expected(a), "1e-8"),
   conservation |-> (r.ret = 0 /\ a.o_contspec_type = 2 /\ ManName(a.o_discretization) \in Unitary) =>
      \A j \in 1..M : Near(Sq(CAbs(cs[2*M + j])) \oplus (a.kappa \otimes (Sq(CAbs(cs[3*M + j])) \oplus Sq(CAbs(cs[4*M + j])))), 1, "1e-8" \otimes (1 \oplus Sq(VMaxAbs(cs))))]
=============================================================================
