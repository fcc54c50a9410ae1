------------------------------ MODULE Catalog -------------------------------
(* Calls of the transforms used by the behavioural specifications: valid     *)
(* calls over all transforms and options, and calls that must be rejected.   *)
(* Field eig: the call computes eigenvalues of a companion pencil, which are *)
(* repeatable only to rounding.                                              *)
EXTENDS Signals, Akns
LOCAL NseStr(q) == NFmt(q)
Chance(k, n) == IRand(<<k, "chance">>, n) = 0
Amp(k) == Uniform(<<k, "amp">>, "0.4", "1.6")
Window(k) == RFmt(<<Uniform(<<k, "T0">>, -5, -3), Uniform(<<k, "T1">>, 3, 5)>>)
FreqGrid(k) == RFmt(<<Uniform(<<k, "X0">>, -3, "-0.5"), Uniform(<<k, "X1">>, "0.6", 3)>>)
(* guesses near the zeros of a for the pulses used here *)
Guess(k, n) == Vec([j \in 1..n |-> Cx(Uniform(<<k, j, "gr">>, "-0.4", "0.4"), Uniform(<<k, j, "gi">>, "0.2", "0.9"))])
SmallFast == <<0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 21>>       \* degree at most 4 per step
SlowIds == <<1, 22, 23, 24, 25, 26, 27>>
(* ------------------------------------------------------------------- NSE *)
NsevV(k) ==
  LET what == IRand(<<k, "what">>, 5)               \* 0, 1 continuous, 2 both, 3, 4 discrete only
      bs == what >= 2
      d == IF bs THEN PickSeq(<<k, "d">>, IF Chance(<<k, "sl">>, 3) THEN SlowIds ELSE SmallFast) ELSE IRand(<<k, "d">>, 28)
      slow == IsSlow(d)
      loc == IF slow THEN 1 ELSE PickSeq(<<k, "loc">>, <<0, 0, 1, 2>>)
      rich == Chance(<<k, "rich">>, 4)
      D == PickSeq(<<k, "D">>, IF loc = 2 /\ bs THEN <<24, 29>> ELSE IF Degree(d) > 20 THEN <<6, 7>> ELSE <<6, 8, 11, 15>>)
      kap == IF bs THEN PickSeq(<<k, "kap">>, <<1, 1, 1, -1>>) ELSE PickSeq(<<k, "kap">>, <<1, -1>>)
      M == IF what <= 2 THEN PickSeq(<<k, "M">>, <<1, 2, 3, 5>>) ELSE 0
      nk == IF loc = 1 THEN 2 ELSE Degree(d)*Up(d)*D
      amp == RMin(Amp(k), IF d = 0 /\ kap = -1 THEN "0.4" ELSE 9)
      c == [op |-> "nsev", q |-> NFmt(NoisyPulse(k, D, amp)), T |-> Window(k), M |-> M, cs |-> IF what <= 2 THEN 1 ELSE 0, kappa |-> kap,
            o_discretization |-> d, o_contspec_type |-> IRand(<<k, "ct">>, 3), o_discspec_type |-> IRand(<<k, "dt">>, 3), o_normalization_flag |-> IRand(<<k, "nf">>, 2),
            o_richardson_extrapolation_flag |-> IF rich THEN 1 ELSE 0, o_bound_state_localization |-> loc,
            o_bound_state_filtering |-> IF bs /\ (loc = 2 \/ rich) THEN 2 ELSE PickSeq(<<k, "fil">>, <<0, 1, 2>>), o_niter |-> 10,
            bs |-> IF bs THEN 1 ELSE 0, nc |-> IF bs /\ Chance(<<k, "nc">>, 2) THEN 1 ELSE 0,
            K |-> IF bs THEN nk ELSE IF Chance(<<k, "kp">>, 2) THEN -1 ELSE 3, eig |-> IF bs /\ loc # 1 THEN 1 ELSE 0]
  IN c @@ (IF what <= 2 THEN [XI |-> FreqGrid(k)] ELSE <<>>) @@ (IF bs /\ loc = 1 THEN [init |-> NFmt(Guess(k, 2))] ELSE <<>>)
NsevDefault(k) ==
  [op |-> "nsev", q |-> NFmt(NoisyPulse(k, PickSeq(<<k, "D">>, <<8, 11, 16>>), Amp(k))), T |-> Window(k), M |-> 3, XI |-> FreqGrid(k), cs |-> 1,
   kappa |-> PickSeq(<<k, "kap">>, <<1, -1>>), K |-> 40, bs |-> 1, nc |-> 1, eig |-> 1]
(* ------------------------------------------------------------------- KdV *)
KdvQ(k, D) == LET q == NoisyPulse(k, D, Amp(k)) IN NFmt(Vec([j \in 1..D |-> CRe(q[j])]))
KdvvV(k) ==
  LET what == IRand(<<k, "what">>, 5)
      bs == what >= 2  d == IRand(<<k, "d">>, 56)
      D == PickSeq(<<k, "D">>, IF Degree(d % 28) > 20 THEN <<6, 7>> ELSE <<6, 8, 11, 15>>)
      loc == IRand(<<k, "loc">>, 2)
      M == IF what <= 2 THEN PickSeq(<<k, "M">>, <<1, 2, 3, 5>>) ELSE 0
      c == [op |-> "kdvv", q |-> KdvQ(k, D), T |-> Window(k), M |-> M, cs |-> IF what <= 2 THEN 1 ELSE 0,
            o_discretization |-> d, o_contspec_type |-> IRand(<<k, "ct">>, 3), o_discspec_type |-> IRand(<<k, "dt">>, 3), o_normalization_flag |-> IRand(<<k, "nf">>, 2),
            o_richardson_extrapolation_flag |-> IF Chance(<<k, "rich">>, 4) THEN 1 ELSE 0, o_bound_state_localization |-> loc, o_grid_spacing |-> "0.2",
            bs |-> IF bs THEN 1 ELSE 0, nc |-> IF bs /\ Chance(<<k, "nc">>, 2) THEN 1 ELSE 0,
            K |-> IF bs THEN (IF loc = 0 THEN 2 ELSE 10) ELSE IF Chance(<<k, "kp">>, 2) THEN -1 ELSE 0, eig |-> 0]
  IN c @@ (IF what <= 2 THEN [XI |-> RFmt(<<Uniform(<<k, "X0">>, -3, "-0.5"), Uniform(<<k, "X1">>, "-0.4", "-0.1")>>)] ELSE <<>>)
       @@ (IF bs /\ loc = 0 THEN [init |-> NFmt(<<Cx(0, Uniform(<<k, "g1">>, "0.3", "0.6")), Cx(0, Uniform(<<k, "g2">>, "0.7", "1.1"))>>)] ELSE <<>>)
(* the default grid spacing is unusable, so that only the continuous spectrum is available with default options *)
KdvvDefault(k) ==
  [op |-> "kdvv", q |-> KdvQ(k, PickSeq(<<k, "D">>, <<8, 11, 16>>)), T |-> Window(k), M |-> 2, XI |-> "-2.5 -0.3", cs |-> 1, K |-> -1, bs |-> 0, nc |-> 0, eig |-> 0]
(* --------------------------------------------------------------- Manakov *)
ManDis == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12>>
ManV(k) ==
  LET what == IRand(<<k, "what">>, 4)  bs == what >= 2
      d == IF bs THEN PickSeq(<<k, "d">>, <<0, 2, 5, 8>>) ELSE PickSeq(<<k, "d">>, ManDis)
      D == PickSeq(<<k, "D">>, IF bs THEN <<6, 8>> ELSE <<6, 8, 11>>)
      kap == PickSeq(<<k, "kap">>, <<1, 1, -1>>)
      c == [op |-> "manakovv", q |-> NFmt(NoisyPulse(<<k, 1>>, D, Amp(<<k, 1>>))), q2 |-> NFmt(NoisyPulse(<<k, 2>>, D, Amp(<<k, 2>>))), T |-> Window(k),
            M |-> IF what <= 2 THEN PickSeq(<<k, "M">>, <<1, 2, 3>>) ELSE 0, cs |-> IF what <= 2 THEN 1 ELSE 0, kappa |-> kap,
            o_discretization |-> d, o_contspec_type |-> IRand(<<k, "ct">>, 3), o_normalization_flag |-> IRand(<<k, "nf">>, 2),
            o_richardson_extrapolation_flag |-> IF ~bs /\ Chance(<<k, "rich">>, 4) THEN 1 ELSE 0, o_bound_state_filtering |-> IRand(<<k, "fil">>, 2),
            bs |-> IF bs THEN 1 ELSE 0, K |-> IF bs THEN 400 ELSE IF Chance(<<k, "kp">>, 2) THEN -1 ELSE 0, eig |-> IF bs THEN 1 ELSE 0]
  IN c @@ (IF what <= 2 THEN [XI |-> FreqGrid(k)] ELSE <<>>)
ManDefault(k) ==
  [op |-> "manakovv", q |-> NFmt(NoisyPulse(<<k, 1>>, 6, Amp(<<k, 1>>))), q2 |-> NFmt(NoisyPulse(<<k, 2>>, 6, Amp(<<k, 2>>))), T |-> Window(k), M |-> 3, XI |-> FreqGrid(k),
   cs |-> 1, kappa |-> PickSeq(<<k, "kap">>, <<1, -1>>), K |-> 400, bs |-> 1, eig |-> 1]
(* ---------------------------------------------------------- periodic NSE *)
PerSig(k, D) == LET a == Uniform(<<k, "pa">>, "0.5", "1.2")  th(j) == (2 \otimes Pi) \otimes ((j - 1) \oslash D)
                    b == Uniform(<<k, "pb">>, "0.05", "0.4")  p == Uniform(<<k, "pp">>, -3, 3) IN
  Vec([j \in 1..D |-> (Cx(a, 0) \oplus (b \otimes CCos(th(j) \oplus p))) \oplus Cx(0, "0.1" \otimes CSin(2 \otimes th(j)))])
NsepV(k) ==
  LET loc == PickSeq(<<k, "loc">>, <<0, 1, 2, 2, 3>>)      \* SUBSAMPLE_AND_REFINE NEWTON GRIDSEARCH MIXED
      D == PickSeq(<<k, "D">>, IF loc \in {0, 3} THEN <<16, 32>> ELSE <<8, 16>>)  kap == PickSeq(<<k, "kap">>, <<1, -1>>)
      d == IF loc = 1 THEN PickSeq(<<k, "d">>, <<1, 22>>) ELSE PickSeq(<<k, "d">>, <<2, 3, 4, 5, 6, 9, 11>>)
      which == IRand(<<k, "which">>, 3)                    \* 0 both, 1 main, 2 both
      w == Uniform(<<k, "w">>, 4, 7)
      c == [op |-> "nsep", q |-> NFmt(PerSig(k, D)), T |-> RFmt(<<Num(0), w>>), phase |-> RFmt(<<IF Chance(<<k, "ph">>, 3) THEN Uniform(<<k, "phv">>, -2, 2) ELSE Num(0)>>),
            kappa |-> kap, K |-> IF loc = 1 THEN 2 ELSE 8*Degree(d)*D + 8, M |-> IF loc = 1 THEN 2 ELSE 8*Degree(d)*D + 8, ms |-> 1, as |-> IF which = 1 THEN 0 ELSE 1,
            o_localization |-> loc, o_discretization |-> d, o_normalization_flag |-> IRand(<<k, "nf">>, 2), o_points_per_spine |-> IF loc = 1 THEN 1 ELSE 2,
            o_filtering |-> PickSeq(<<k, "fil">>, <<2, 1>>), o_bounding_box |-> IF kap = -1 THEN "-3 3 -1 1" ELSE "-3 3 -2 2", o_max_evals |-> 20,
            eig |-> IF loc \in {0, 3} THEN 1 ELSE 0]
  IN c @@ (IF loc = 1 THEN [init |-> NFmt(Guess(<<k, 1>>, 2)), inita |-> NFmt(Guess(<<k, 2>>, 2))] ELSE <<>>)
NsepDefault(k) ==
  [op |-> "nsep", q |-> NFmt(PerSig(k, 16)), T |-> RFmt(<<Num(0), Uniform(<<k, "w">>, 4, 7)>>), phase |-> 0, kappa |-> PickSeq(<<k, "kap">>, <<1, -1>>), K |-> 300, M |-> 300, ms |-> 1, as |-> 1, eig |-> 1]
(* --------------------------------------------------------------- inverse *)
Gauss(k, M, sz) == Vec([j \in 1..M |-> LET x == (2*j - M - 1) \oslash M IN ((sz \otimes CExp(CNeg(9 \otimes Sq(x)))) \otimes CExp(I \otimes (Uniform(<<k, "c">>, -2, 2) \otimes x)))])
InvV(k) ==
  LET D == PickSeq(<<k, "D">>, <<8, 16, 32>>)  M == D*PickSeq(<<k, "M">>, <<1, 2>>)
      what == IRand(<<k, "what">>, 4)              \* 0, 1 continuous, 2 both, 3 discrete only
      kap == IF what >= 2 THEN 1 ELSE PickSeq(<<k, "kap">>, <<1, -1>>)
      type == IF what >= 2 THEN 0 ELSE IRand(<<k, "type">>, 3)
      meth == CASE type = 0 -> PickSeq(<<k, "meth">>, IF what >= 2 \/ M > D THEN <<0, 1>> ELSE <<0, 1>>) [] OTHER -> 0
      c == [op |-> "inverse", D |-> D, T |-> RFmt(<<Num(-4), Num(4)>>), XI |-> "-5 5", kappa |-> kap,
            o_discretization |-> PickSeq(<<k, "d">>, <<4, 0>>), o_contspec_type |-> type, o_contspec_inversion_method |-> meth, o_discspec_type |-> IRand(<<k, "dt">>, 2), eig |-> 0]
  IN (IF what <= 2 THEN [contspec |-> NFmt(Gauss(k, IF type = 2 THEN D ELSE M, "0.5"))] ELSE [M |-> 0]) @@
     (IF what >= 2 THEN [bs |-> NFmt(<<Cx("0.1", Uniform(<<k, "b1">>, "0.3", "0.6")), Cx("-0.2", Uniform(<<k, "b2">>, "0.7", "1.1"))>>), nc |-> "1.2,0.3 -0.4,0.8"] ELSE <<>>) @@ c
InvDefault(k) ==
  [op |-> "inverse", D |-> 16, T |-> RFmt(<<Num(-4), Num(4)>>), XI |-> "-5 5", kappa |-> PickSeq(<<k, "kap">>, <<1, -1>>), contspec |-> NFmt(Gauss(k, 16, "0.4")), eig |-> 0]
(* ------------------------------------------------------------------- all *)
Valid(k) == LET n == IRand(<<k, "kind">>, 12) IN
  CASE n <= 3 -> NsevV(k) [] n \in {4, 5, 6} -> KdvvV(k) [] n \in {7, 8} -> ManV(k) [] n \in {9, 10} -> NsepV(k) [] OTHER -> InvV(k)
WithDefaults(k) == LET n == IRand(<<k, "dkind">>, 5) IN
  CASE n = 0 -> NsevDefault(k) [] n = 1 -> KdvvDefault(k) [] n = 2 -> ManDefault(k) [] n = 3 -> NsepDefault(k) [] OTHER -> InvDefault(k)
KindOf(op) == op
(* ----------------------------------------------------------- rejected *)
(* Calls that violate exactly one documented requirement, with the kind of   *)
(* error: 2 invalid argument, 6 not yet implemented, 7 sanity check.         *)
(* Field opt: only an option or a bound-state guess is unusable; such a call *)
(* may fail after part of the output has been computed.                      *)
LOCAL Bad1(c, u, code) == With(c, u @@ [code |-> code, eig |-> 0, opt |-> IF \A f \in DOMAIN u : f = "init" \/ (Len(f) > 2 /\ SubSeq(f, 1, 2) = "o_") THEN 1 ELSE 0])
LOCAL Without(c, f) == [g \in DOMAIN c \ f |-> c[g]]
LOCAL Flip(T) == LET t == NParse(T) IN RFmt(<<t[2], t[1]>>)
LOCAL Same2(T) == LET t == NParse(T) IN RFmt(<<t[1], t[1]>>)
LOCAL CommonBad(c) ==
  << Bad1(c, [D |-> 0], 2), Bad1(c, [D |-> 1], 2), Bad1(Without(c, {"q"}), [D |-> 8], 2), Bad1(Without(c, {"T"}), <<>>, 2),
     Bad1(c, [T |-> Flip(c.T)], 2), Bad1(c, [T |-> Same2(c.T)], 2) >>
LOCAL SpecBad(c) ==
  << Bad1(Without(c, {"XI"}), <<>>, 2), Bad1(c, [XI |-> Flip(c.XI)], 2), Bad1(c, [XI |-> Same2(c.XI)], 2), Bad1(c, [K |-> -1], 2),
     Bad1(c, [o_discretization |-> 99], 2), Bad1(c, [o_contspec_type |-> 9], 2) >>
LOCAL KappaBad(c) == << Bad1(c, [kappa |-> 0], 2), Bad1(c, [kappa |-> 2], 2), Bad1(c, [kappa |-> -2], 2) >>
(* continuous and discrete spectrum requested *)
LOCAL NsevBoth(k) == With(NsevDefault(k), [q |-> NFmt(Sech(NParse(Window(k)), PickSeq(<<k, "D">>, <<12, 16>>), Uniform(<<k, "amp">>, "1.1", "1.4"), 1, 0, "0.1", 1)), kappa |-> 1, K |-> 64, o_discretization |-> 4, o_bound_state_localization |-> 0])
NsevBad(k) == LET c == NsevBoth(k)  slow == With(c, [o_discretization |-> PickSeq(<<k, "sl">>, SlowIds)]) IN
  CommonBad(c) \o SpecBad(c) \o KappaBad(c) \o
  << Bad1(c, [o_bound_state_localization |-> 9], 2), Bad1(c, [o_bound_state_filtering |-> 9], 2), Bad1(c, [o_discspec_type |-> 9], 2),
     Bad1(slow, [o_bound_state_localization |-> 0], 2), Bad1(slow, [o_bound_state_localization |-> 2], 2),
     Bad1(c, [o_bound_state_filtering |-> 3, o_bounding_box |-> "1 -1 0 2"], 2), Bad1(c, [o_bound_state_filtering |-> 3, o_bounding_box |-> "-1 1 2 0"], 2) >>
LOCAL KdvBoth(k) == With(KdvvDefault(k), [K |-> 2, bs |-> 1, nc |-> 1, init |-> NFmt(<<Cx(0, Uniform(<<k, "g1">>, "0.3", "0.6")), Cx(0, Uniform(<<k, "g2">>, "0.7", "1.1"))>>), o_discretization |-> 5, o_bound_state_localization |-> 0, o_grid_spacing |-> "0.2"])
KdvvBad(k) == LET c == KdvBoth(k)  q == NParse(c.q) IN
  CommonBad(c) \o SpecBad(c) \o
  << Bad1(c, [q |-> NFmt(Vec([j \in 1..Len(q) |-> IF j = 1 + IRand(<<k, "cx">>, Len(q)) THEN q[j] \oplus Cx(0, "0.1") ELSE q[j]]))], 2),
     Bad1(c, [XI |-> "-1 1", M |-> 3], 2), Bad1(c, [XI |-> "0 1"], 2), Bad1(c, [XI |-> "-1 0"], 2),
     Bad1(c, [init |-> "0,0.4 0.1,0.8"], 2), Bad1(c, [init |-> "0,0.4 0,-0.8"], 2), Bad1(c, [init |-> "0,0 0,0.8"], 2),
     Bad1(Without(c, {"init"}), [o_bound_state_localization |-> 1, o_grid_spacing |-> 0], 2), Bad1(Without(c, {"init"}), [o_bound_state_localization |-> 1, o_grid_spacing |-> -1], 2),
     Bad1(c, [o_bound_state_localization |-> 9], 2), Bad1(c, [o_discspec_type |-> 9], 2) >>
LOCAL ManBoth(k) == With(ManDefault(k), [kappa |-> 1])
ManBad(k) == LET c == ManBoth(k) IN
  CommonBad(c) \o SpecBad(c) \o KappaBad(c) \o
  << Bad1(Without(c, {"q2"}), <<>>, 2), Bad1(c, [o_discretization |-> 9], 2) >>
NsepBad(k) == LET c == With(NsepDefault(k), [o_localization |-> PickSeq(<<k, "loc">>, <<0, 2, 3>>)]) IN
  CommonBad(c) \o KappaBad(c) \o
  << Bad1(c, [D |-> 15], 2), Bad1(c, [D |-> 12], 2), Bad1(c, [K |-> -1, ms |-> 0], 2), Bad1(c, [M |-> -1, as |-> 0], 2), Bad1(c, [sh |-> 1], 6), Bad1(c, [ms |-> 0], 2),
     Bad1(c, [o_localization |-> 9], 2), Bad1(c, [o_discretization |-> 99], 2), Bad1(c, [o_filtering |-> 1, o_bounding_box |-> "1 -1 -2 2"], 2) >>
InvBad(k) == LET c == With(InvDefault(k), [kappa |-> 1])  s == [bs |-> "0.1,0.7 0.2,0.4", nc |-> "1,0.2 0.4,-1"]  d == s @@ With(Without(c, {"contspec", "XI"}), [M |-> 0]) IN
  << Bad1(Without(c, {"contspec"}), [M |-> 16], 2), Bad1(c, [M |-> 15], 2), Bad1(c, [M |-> 14], 2), Bad1(c, [D |-> 12], 2), Bad1(c, [D |-> 1], 2), Bad1(c, [D |-> 0], 2),
     Bad1(c, [qout |-> 0], 2), Bad1(Without(c, {"T"}), <<>>, 2), Bad1(c, [T |-> "4 -4"], 2), Bad1(c, [T |-> "4 4"], 2), Bad1(c, [kappa |-> 0], 2), Bad1(c, [kappa |-> 3], 2),
     Bad1(Without(c, {"XI"}), <<>>, 2), Bad1(c, [o_discretization |-> 7], 2), Bad1(c, [o_discretization |-> 99], 2), Bad1(c, [o_contspec_type |-> 9], 2), Bad1(c, [o_contspec_inversion_method |-> 9], 2),
     Bad1(c, [o_contspec_type |-> 2, T |-> "-4 5"], 2), Bad1(s @@ c, [kappa |-> -1], 7), Bad1(d, [bs |-> "0.1,0.7 0.2,0"], 7), Bad1(d, [bs |-> "0.1,0.7 0.2,-0.4"], 7),
     Bad1(d, [bs |-> "0.1,0.7 0.1,0.7"], 7), Bad1(Without(d, {"nc"}), <<>>, 2), Bad1(Without(d, {"bs"}), [K |-> 2], 2), Bad1(Without(c, {"contspec"}), [M |-> 0], 7) >>
AllBad(k) == NsevBad(k) \o KdvvBad(k) \o ManBad(k) \o NsepBad(k) \o InvBad(k)
(* --------------------------------------------------------- left out *)
(* Optional arguments left out, alone or together: still valid calls.        *)
LOCAL Opt1(c, u) == With(c, u @@ [code |-> 0])
Optional(k) ==
  LET n == NsevBoth(k)  kd == KdvBoth(k)  m == ManBoth(k)  p == NsepDefault(k)  i == With(InvDefault(k), [kappa |-> 1])
      all(c) == << c, Opt1(Without(c, {"XI"}), [cs |-> 0]), Opt1(Without(c, {"XI"}), [cs |-> 0, M |-> 0]), Opt1(c, [nc |-> 0]), Opt1(c, [bs |-> 0, nc |-> 0]), Opt1(Without(c, {"init"}), [bs |-> 0, nc |-> 0, K |-> -1]),
                   Opt1(Without(c, {"XI", "init"}), [cs |-> 0, bs |-> 0, nc |-> 0, K |-> -1]), Opt1(Without(c, {"init"}), [K |-> 0]), Opt1(Without(c, {"XI"}), [cs |-> 0, nc |-> 0]) >>
      rich(c) == Opt1(c, [o_richardson_extrapolation_flag |-> 1])
      d == [bs |-> "0.1,0.7 0.2,0.4", nc |-> "1,0.2 0.4,-1"] @@ With(Without(i, {"contspec", "XI"}), [M |-> 0])
      set == Fold(LAMBDA acc, c : acc \o all(Opt1(c, <<>>)) \o all(rich(c)), <<>>, <<n, With(n, [o_discspec_type |-> 1]), With(n, [o_discspec_type |-> 2]), With(n, [kappa |-> -1]), kd, With(kd, [o_discspec_type |-> 2]), m, With(m, [kappa |-> -1])>>)
  IN set \o << Opt1(p, <<>>), Opt1(p, [as |-> 0]), Opt1(p, [ms |-> 0, as |-> 0]), Opt1(p, [ms |-> 0, o_filtering |-> 0]), Opt1(p, [as |-> 0, K |-> 300, M |-> 0]),
             Opt1(i, <<>>), Opt1(d, <<>>), Opt1(Without(i, {"XI"}), [o_contspec_type |-> 2]) >>
(* ------------------------------------------------------------- comparing *)
Str(r, f) == IF Has(r, f) THEN r[f] ELSE ""
Num2(s) == IF s = "" THEN <<>> ELSE NParse(s)
SameField(x, y, tol) == x = y \/ (LET u == Num2(x)  w == Num2(y) IN Len(u) = Len(w) /\ (Len(u) = 0 \/ VDist(u, w) \preceq (tol \otimes RMax(1, VMaxAbs(u)))))
SamePoints(x, y, tol) == x = y \/ (LET u == Num2(x)  w == Num2(y) IN Len(u) = Len(w) /\ (Len(u) = 0 \/ SameSet(u, w, tol \otimes RMax(1, VMaxAbs(u)))))
(* both responses carry the same results *)
SameResults(a, r, s) ==
  LET t == IF a.eig = 1 THEN Num("1e-5") ELSE Num("1e-11") IN
  /\ r.ret = s.ret
  /\ Get(r, "Kout", 0) = Get(s, "Kout", 0) /\ Get(r, "Mout", 0) = Get(s, "Mout", 0)
  /\ SameField(Str(r, "contspec"), Str(s, "contspec"), "1e-11")
  /\ SameField(Str(r, "q"), Str(s, "q"), "1e-11")
  /\ \A f \in {"bs", "ms", "as"} : SamePoints(Str(r, f), Str(s, f), t)
  /\ (a.eig = 1 \/ SameField(Str(r, "nc"), Str(s, "nc"), t))
=============================================================================
