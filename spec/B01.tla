-------------------------------- MODULE B01 ---------------------------------
(* NSE continuous spectrum equals the scattering data of the scheme.        *)
EXTENDS Flow, Nse, Signals
N == Tier(392, 2240)
Call1(i) ==
  LET k == <<Seed, "B01", i>>
      d == (i - 1) % 28
      sz == Sizes(k, i, Degree(d), Up(d))  D == sz[1]  M == sz[2]
      kap == IF IRand(<<k, "kap">>, 2) = 0 THEN 1 ELSE -1
      t0 == Uniform(<<k, "T0">>, -4, 2)  wid == Uniform(<<k, "w">>, "0.5", 6)
      x0 == Uniform(<<k, "X0">>, -3, 2)  xw == Uniform(<<k, "xw">>, "0.2", 4)
      \* the modal scheme is defined for |q|h < 1 only when defocusing
      amp == RMin(Uniform(<<k, "amp">>, "0.2", "1.5"), IF d = 0 /\ kap = -1 THEN ("0.5" \otimes (D - 1)) \oslash wid ELSE 9)
  IN [op |-> "nsev", q |-> NFmt(Peculiar(k, NoisyPulse(k, D, amp))), T |-> RFmt(<<t0, t0 \oplus wid>>), M |-> M, XI |-> RFmt(<<x0, x0 \oplus xw>>),
      cs |-> 1, K |-> -1, kappa |-> kap, o_discretization |-> d, o_contspec_type |-> 2,
      o_normalization_flag |-> 1]
Sess(i) == LET c == Call1(i) IN <<c, With(c, [o_contspec_type |-> 0]), With(c, [o_contspec_type |-> 1, o_normalization_flag |-> 0])>>
Expected(a) ==
  LET q == NParse(a.q)  T == NParse(a.T)  pr == NseProblem(a.o_discretization, q, T, a.kappa)
      g == Vec(Grid(NParse(a.XI), a.M))
  IN Layout(a.o_contspec_type, Vec([j \in 1..a.M |-> AB(pr, g[j])]))
Tol == "1e-8"
J(h, a, r) == [success |-> r.ret = 0,
               scattering_data |-> r.ret = 0 => VNear(NParse(r.contspec), Expected(a), Tol)]
=============================================================================
