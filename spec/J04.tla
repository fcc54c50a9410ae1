-------------------------------- MODULE J04 ---------------------------------
(* The MATLAB functions return what the C functions return: every option     *)
(* string stands for the option values written down here (from the help      *)
(* texts), and every call is made twice, through both interfaces.            *)
EXTENDS Flow, Catalog
N == Tier(700, 14000)
KeyOf(i) == <<Seed, "J04", i>>
Hook == [op |-> "sethook", h |-> "A"]
RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "|" \o Join(SubSeq(s, 2, Len(s)))
Str1(n) == RFmt(<<n>>)
(* an option: what is passed to MATLAB, and the fields it stands for         *)
Opt(s, f) == [s |-> s, f |-> f]
Flag(s, f) == Opt(<<"s:" \o s>>, f)
Val(s, v, f) == Opt(<<"s:" \o s, "r:" \o v>>, f)
AknsNames == <<"modal", "BO", "2split1A", "2split1B", "2split2A", "2split2B", "2split2S", "2split3A", "2split3B", "2split3S", "2split4A", "2split4B", "2split5A", "2split5B",
               "2split6A", "2split6B", "2split7A", "2split7B", "2split8A", "2split8B", "4split4A", "4split4B", "CF4_2", "CF4_3", "CF5_3", "CF6_4", "ES4", "TES4">>
ManNames == <<"2split3A", "2split3B", "2split4A", "2split4B", "2split6B", "4split4A", "4split4B", "4split6B", "FTES4_4A", "FTES4_4B", "FTES4_suzuki", "CF4_2", "BO">>
Disc(names, j, base) == Flag("discr_" \o names[j], [o_discretization |-> base + j - 1])
Box(k) == RFmt(<<Uniform(<<k, "x0">>, -2, "-0.2"), Uniform(<<k, "x1">>, "0.2", 2), Uniform(<<k, "y0">>, -1, "0.1"), Uniform(<<k, "y1">>, "0.4", 2)>>)
None == Opt(<<>>, <<>>)
May(k, n, o) == IF IRand(<<k, "may">>, n) = 0 THEN o ELSE None
Cat(s) == Fold(LAMBDA acc, o : acc \o o.s, <<>>, s)
Put(c, s) == Fold(LAMBDA acc, o : With(acc, o.f), c, s)
(* the options in an arbitrary order, at most one of each kind *)
Mixed(k, s) == LET m == IRand(<<k, "rot">>, Len(s)) IN SubSeq(s, m + 1, Len(s)) \o SubSeq(s, 1, m)
Mex(fn, nl, in, extra) == With([op |-> "mex", fn |-> fn, nlhs |-> nl, in |-> Join(in)], extra)
Quiet(k) == IRand(<<k, "quiet">>, 4) = 0
Hush(k) == IF Quiet(k) THEN <<Flag("quiet", <<>>)>> ELSE <<>>
(* ------------------------------------------------------------------ NSE *)
NsevPair(k) ==
  LET nl == IRand(<<k, "nl">>, 4)  d == IRand(<<k, "d">>, 29)
      dis == IF d = 28 THEN 11 ELSE d
      D == PickSeq(<<k, "D">>, IF Degree(dis) > 20 THEN <<6, 7>> ELSE <<6, 8, 11>>)
      g == NFmt(Guess(k, 1 + IRand(<<k, "ng">>, 3)))  ng == Len(NParse(g))
      loc == PickSeq(<<k, "loc">>, IF IsSlow(dis) THEN <<1, 1, 1, 0>> ELSE <<0, 1, 2, 3>>)
      M == 1 + IRand(<<k, "M">>, 5)  ds == 2 + IRand(<<k, "Dsub">>, 4)
      kap == PickSeq(<<k, "kap">>, <<1, 1, -1>>)
      skip == IRand(<<k, "skip">>, 6)
      q == NFmt(NoisyPulse(k, D, RMin(Amp(k), IF dis = 0 /\ kap = -1 THEN "0.4" ELSE 9)))  T == Window(k)  X == FreqGrid(k)
      tol == PickSeq(<<k, "tol">>, <<"1e-3", "1e-9">>)  nit == 1 + IRand(<<k, "nit">>, 10)  box == Box(k)
      os == Mixed(k, << IF d = 28 THEN None ELSE Disc(AknsNames, d + 1, 0),
             Val("M", Str1(M), <<>>), May(<<k, 1>>, 4, Flag("RE", [o_richardson_extrapolation_flag |-> 1])), May(<<k, 2>>, 3, Flag("dstype_residues", [o_discspec_type |-> 1])),
             May(<<k, 3>>, 3, Flag("cstype_ab", [o_contspec_type |-> 1])), May(<<k, 4>>, 4, Flag("skip_normalization", [o_normalization_flag |-> 0])),
             PickSeq(<<k, "fil">>, <<None, Flag("bsfilt_none", [o_bound_state_filtering |-> 0]), Flag("bsfilt_basic", [o_bound_state_filtering |-> 1]), Flag("bsfilt_full", [o_bound_state_filtering |-> 2]),
                                     Val("bsfilt_manual", box, [o_bound_state_filtering |-> 3, o_bounding_box |-> box])>>),
             CASE loc = 0 -> Flag("bsloc_fasteigen", [o_bound_state_localization |-> 0]) [] loc = 1 -> Opt(<<"s:bsloc_newton", "c:" \o g>>, [o_bound_state_localization |-> 1, init |-> g])
               [] loc = 2 -> Flag("bsloc_subsamp_refine", [o_bound_state_localization |-> 2]) [] OTHER -> None,
             May(<<k, 5>>, 2, Val("bsloc_niter", Str1(nit), [o_niter |-> nit])), May(<<k, 6>>, 3, Val("bsloc_tol", tol, [o_tol |-> tol])), May(<<k, 7>>, 4, Val("bsloc_Dsub", Str1(ds), [o_Dsub |-> ds])),
             CASE skip = 0 -> Flag("skip_cs", <<>>) [] skip = 1 -> Flag("skip_bs", <<>>) [] skip = 2 -> Flag("skip_nc", <<>>) [] OTHER -> None >> \o Hush(k))
      cs == IF skip = 0 THEN 0 ELSE 1  bs == IF nl < 2 \/ skip = 1 THEN 0 ELSE 1  nc == IF nl < 3 \/ skip \in {1, 2} THEN 0 ELSE 1
      c == Put([op |-> "nsev", q |-> q, T |-> T, XI |-> X, M |-> M, kappa |-> kap, cs |-> cs, bs |-> bs, nc |-> nc, K |-> IF bs = 1 /\ loc = 1 THEN ng ELSE IF bs = 1 THEN 900 ELSE D, eig |-> 1, opts |-> "inline"], os)
  IN <<c, Mex("nsev", nl, <<"c:" \o q, "r:" \o T, "r:" \o X, "r:" \o Str1(kap)>> \o Cat(os), [first |-> cs, second |-> bs, third |-> nc, quiet |-> IF Quiet(k) THEN 1 ELSE 0, eig |-> 1, name |-> "fnft_nsev"])>>
KdvvPair(k) ==
  LET nl == IRand(<<k, "nl">>, 4)  d == IRand(<<k, "d">>, 29)
      D == PickSeq(<<k, "D">>, IF d < 28 /\ Degree(d) > 20 THEN <<6, 7>> ELSE <<6, 8, 11>>)
      loc == IRand(<<k, "loc">>, 2)
      g == NFmt(<<Cx(0, Uniform(<<k, "g1">>, "0.3", "0.6")), Cx(0, Uniform(<<k, "g2">>, "0.7", "1.1"))>>)
      M == 1 + IRand(<<k, "M">>, 5)  nit == 1 + IRand(<<k, "nit">>, 10)  skip == IRand(<<k, "skip">>, 6)
      q == RFmt(NParse(KdvQ(k, D)))  T == Window(k)  X == RFmt(<<Uniform(<<k, "X0">>, -3, "-0.5"), Uniform(<<k, "X1">>, "-0.4", "-0.1")>>)
      os == Mixed(k, << IF d = 28 THEN None ELSE Disc(AknsNames, d + 1, 28),
             Val("M", Str1(M), <<>>), May(<<k, 1>>, 4, Flag("RE", [o_richardson_extrapolation_flag |-> 1])), May(<<k, 2>>, 3, Flag("dstype_residues", [o_discspec_type |-> 1])),
             May(<<k, 3>>, 3, Flag("cstype_ab", [o_contspec_type |-> 1])), May(<<k, 4>>, 4, Flag("skip_normalization", [o_normalization_flag |-> 0])),
             IF loc = 0 THEN Opt(<<"s:bsloc_newton", "c:" \o g>>, [o_bound_state_localization |-> 0, init |-> g]) ELSE Flag("bsloc_gridsearch_refine", [o_bound_state_localization |-> 1]),
             May(<<k, 5>>, 2, Val("bsloc_niter", Str1(nit), [o_niter |-> nit])), May(<<k, 6>>, 9, None), Val("grid_spacing", "0.2", [o_grid_spacing |-> "0.2"]),
             CASE skip = 0 -> Flag("skip_cs", <<>>) [] skip = 1 -> Flag("skip_bs", <<>>) [] skip = 2 -> Flag("skip_nc", <<>>) [] OTHER -> None >> \o Hush(k))
      cs == IF skip = 0 THEN 0 ELSE 1  bs == IF nl < 2 \/ skip = 1 THEN 0 ELSE 1  nc == IF nl < 3 \/ skip \in {1, 2} THEN 0 ELSE 1
      c == Put([op |-> "kdvv", q |-> q, T |-> T, XI |-> X, M |-> M, cs |-> cs, bs |-> bs, nc |-> nc, K |-> IF bs = 1 /\ loc = 0 THEN 2 ELSE IF bs = 1 THEN 900 ELSE D, eig |-> 0, opts |-> "inline"], os)
  IN <<c, Mex("kdvv", nl, <<"r:" \o q, "r:" \o T, "r:" \o X>> \o Cat(os), [first |-> cs, second |-> bs, third |-> nc, quiet |-> IF Quiet(k) THEN 1 ELSE 0, eig |-> 0, name |-> "fnft_kdvv"])>>
NsepPair(k) ==
  LET nl == IRand(<<k, "nl">>, 4)  D == PickSeq(<<k, "D">>, <<8, 16, 32>>)
      d == IRand(<<k, "d">>, 6)  up == <<1, 1, 4, 2, 4, 1>>[d + 1]
      dis == <<0, 4, 10, 11, 21, 4>>[d + 1]
      loc == IRand(<<k, "loc">>, 5)  n == IF loc = 1 THEN 1 + IRand(<<k, "n">>, 2) ELSE PickSeq(<<k, "n">>, <<1, 2, 2, 3>>)  dflt == IRand(<<k, "pps">>, 2) = 0
      pps == IF dflt THEN 2 ELSE n
      Kg == 1 + IRand(<<k, "Kg">>, 2)
      gu(s, m) == NFmt(Vec([j \in 1..m |-> Cx(Uniform(<<k, s, j, "r">>, "-1.2", "1.2"), Uniform(<<k, s, j, "i">>, "-0.8", "0.8"))]))
      g1 == gu("main", pps*Kg)  g2 == gu("aux", 2)  ph == Str1(Uniform(<<k, "ph">>, -1, 1))
      kap == PickSeq(<<k, "kap">>, <<1, 1, -1>>)  ev == 1 + IRand(<<k, "ev">>, 60)  ds == PickSeq(<<k, "ds">>, <<4, 8>>)
      q == NFmt(NoisyPulse(k, D, Amp(k)))  T == Window(k)  box == Box(k)
      dd == IF d = 5 THEN None ELSE Flag("discr_" \o AknsNames[dis + 1], [o_discretization |-> dis])
      os == (IF loc = 1 THEN <<>> ELSE <<dd>>) \o Mixed(k, << IF dflt THEN None ELSE Val("points_per_spine", Str1(n), [o_points_per_spine |-> n]), May(<<k, 1>>, 3, Val("phase_shift", ph, [phase |-> ph])),
             PickSeq(<<k, "fil">>, <<None, Flag("filt_none", [o_filtering |-> 0]), Val("filt_manual", box, [o_filtering |-> 1, o_bounding_box |-> box])>>),
             CASE loc = 0 -> Flag("loc_subsample_and_refine", [o_localization |-> 0]) [] loc = 1 -> Opt(<<"s:loc_newton", "c:" \o g1, "c:" \o g2>>, [o_localization |-> 1, o_discretization |-> 1, init |-> g1, inita |-> g2])
               [] loc = 2 -> Flag("loc_gridsearch", [o_localization |-> 2]) [] loc = 3 -> Flag("loc_mixed", [o_localization |-> 3]) [] OTHER -> None,
             May(<<k, 2>>, 2, Val("loc_max_evals", Str1(ev), [o_max_evals |-> ev])), May(<<k, 3>>, 3, Val("loc_Dsub", Str1(ds), [o_Dsub |-> ds])),
             May(<<k, 4>>, 4, Flag("skip_normalization", [o_normalization_flag |-> 0])) >> \o Hush(k))
      c0 == [op |-> "nsep", q |-> q, T |-> T, phase |-> "0", kappa |-> kap, ms |-> 1, as |-> 1, eig |-> 1, opts |-> "inline"]
      c == Put(c0 @@ (IF loc = 1 THEN [K |-> pps*Kg, Kg |-> Kg, M |-> 2] ELSE [K |-> pps*up*D + 1, M |-> up*D]), os)
  IN <<c, Mex("nsep", nl, <<"c:" \o q, "r:" \o T, "r:" \o Str1(kap)>> \o Cat(os), [first |-> 1, second |-> IF nl < 2 THEN 0 ELSE 1, third |-> 0, quiet |-> IF Quiet(k) THEN 1 ELSE 0, eig |-> 1, name |-> "fnft_nsep"])>>
ManPair(k) ==
  LET nl == IRand(<<k, "nl">>, 3)  d == IRand(<<k, "d">>, 14)
      D == PickSeq(<<k, "D">>, <<6, 7, 8>>)  M == 1 + IRand(<<k, "M">>, 5)  skip == IRand(<<k, "skip">>, 5)
      kap == IF d \in {11, 12} THEN 1 ELSE PickSeq(<<k, "kap">>, <<1, 1, -1>>)
      q == NFmt(NoisyPulse(<<k, 1>>, D, "0.7" \otimes Amp(k)))  q2 == NFmt(NoisyPulse(<<k, 2>>, D, "0.7" \otimes Amp(k)))  T == Window(k)  X == FreqGrid(k)
      os == Mixed(k, << IF d = 13 THEN None ELSE Disc(ManNames, d + 1, 0), Val("M", Str1(M), <<>>), May(<<k, 1>>, 4, Flag("RE", [o_richardson_extrapolation_flag |-> 1])),
             PickSeq(<<k, "ct">>, <<None, Flag("cstype_ab", [o_contspec_type |-> 1]), Flag("cstype_both", [o_contspec_type |-> 2])>>),
             CASE skip = 0 -> Flag("skip_contspec", <<>>) [] skip = 1 -> Flag("skip_bs", <<>>) [] OTHER -> IF d \in {11, 12} THEN Flag("skip_bs", <<>>) ELSE None >> \o Hush(k))
      cs == IF skip = 0 THEN 0 ELSE 1  bs == IF skip = 1 \/ nl < 2 \/ (skip # 0 /\ d \in {11, 12}) THEN 0 ELSE 1
      c == Put([op |-> "manakovv", q |-> q, q2 |-> q2, T |-> T, XI |-> X, M |-> M, kappa |-> kap, cs |-> cs, bs |-> bs, nc |-> 0, K |-> IF bs = 1 THEN 900 ELSE D, eig |-> 1, opts |-> "inline"], os)
  IN <<c, Mex("manakovv", nl, <<"c:" \o q, "c:" \o q2, "r:" \o T, "r:" \o X, "r:" \o Str1(kap)>> \o Cat(os), [first |-> cs, second |-> bs, third |-> 0, quiet |-> IF Quiet(k) THEN 1 ELSE 0, eig |-> 1, name |-> "fnft_manakovv"])>>
InvPair(k) ==
  LET D == PickSeq(<<k, "D">>, <<8, 16, 32>>)  T == RFmt(<<CNeg(Uniform(<<k, "a">>, 1, 6)), Uniform(<<k, "b">>, 1, 6)>>)  M == 2*D
      kap == PickSeq(<<k, "kap">>, <<1, -1>>)
      h == (NParse(T)[2] \ominus NParse(T)[1]) \oslash (D - 1)  x1 == Pi \oslash (2 \otimes h)
      X == RFmt(<<CNeg(x1) \oplus (Pi \oslash (M \otimes h)), x1>>)
      what == IRand(<<k, "what">>, 3)                        \* continuous, discrete, both, or a seed
      seed == what = 1 /\ IRand(<<k, "seed">>, 2) = 0
      cs == NFmt(Vec([j \in 1..M |-> Cx(Uniform(<<k, j, "re">>, "-0.2", "0.2"), Uniform(<<k, j, "im">>, "-0.2", "0.2"))]))
      bs == NFmt(<<Cx("0.1", Uniform(<<k, "e1">>, "0.5", 1)), Cx("-0.2", Uniform(<<k, "e2">>, "0.2", "0.4"))>>)
      nc == NFmt(<<Cx(1, Uniform(<<k, "n1">>, -1, 1)), Cx("0.4", Uniform(<<k, "n2">>, -1, 1))>>)
      s == NFmt(NoisyPulse(<<k, "s">>, D, "0.3"))  of == 1 + IRand(<<k, "of">>, 12)
      ct == IRand(<<k, "ct">>, 4)
      os == Mixed(k, << CASE ct = 0 -> Flag("cstype_reflection_coefficient", [o_contspec_type |-> 0]) [] ct = 1 -> Flag("cstype_B_of_tau", [o_contspec_type |-> 2]) [] ct = 2 -> Flag("cstype_b_of_xi", [o_contspec_type |-> 1]) [] OTHER -> None,
             May(<<k, 1>>, 2, Flag("dstype_residues", [o_discspec_type |-> 1])), May(<<k, 2>>, 2, Val("oversampling_factor", Str1(of), [o_oversampling_factor |-> of])), May(<<k, 3>>, 4, Flag("discr_modal", [o_discretization |-> 0])),
             IF seed THEN Opt(<<"s:csmethod_use_seed_potential_instead", "c:" \o s>>, [o_contspec_inversion_method |-> 3, seed |-> s])
             ELSE PickSeq(<<k, "meth">>, <<None, Flag("csmethod_tfmatrix_contains_refl_coeff", [o_contspec_inversion_method |-> 1]), Flag("csmethod_tfmatrix_contains_ab_from_iter", [o_contspec_inversion_method |-> 2])>>) >> \o Hush(k))
      c0 == [op |-> "inverse", D |-> D, T |-> T, XI |-> X, kappa |-> kap, eig |-> 0, opts |-> "inline"]
      c == Put(c0 @@ (IF what = 1 THEN [M |-> 0] ELSE [M |-> M, contspec |-> cs]) @@ (IF what = 0 THEN [K |-> 0] ELSE [K |-> 2, bs |-> bs, nc |-> nc]), os)
  IN <<c, Mex("inverse", 1, <<IF what = 1 THEN "e:" ELSE "c:" \o cs, "r:" \o X, IF what = 0 THEN "e:" ELSE "c:" \o bs, IF what = 0 THEN "e:" ELSE "c:" \o nc, "r:" \o Str1(D), "r:" \o T, "r:" \o Str1(kap)>> \o Cat(os),
                [first |-> 1, second |-> 0, third |-> 0, quiet |-> IF Quiet(k) THEN 1 ELSE 0, eig |-> 0, name |-> "fnft_nsev_inverse"])>>
XiPair(k) ==
  LET D == 2 + IRand(<<k, "D">>, 60)  M == 2 + IRand(<<k, "M">>, 60)  T == Window(k)  nl == 1 + IRand(<<k, "nl">>, 2) IN
  <<[op |-> "inverse_XI", D |-> D, M |-> M, T |-> T, dis |-> 4], Mex("inverse_XI", nl, <<"r:" \o Str1(D), "r:" \o T, "r:" \o Str1(M)>>, [mode |-> "xi", M |-> M]),
    [op |-> "version", given |-> 15], Mex("version", 4, <<"e:">>, [in |-> "", mode |-> "version"])>>
(* ------------------------------------------ calls that must be refused *)
Bad(k) ==
  LET q == "c:1,0.2 0.5,1 2,0 0.3,0.1"  r == "r:1 0.5 2 0.3"  T == "r:-1 1.5"  X == "r:-2 2"  one == "r:1"
      m(fn, s) == Mex(fn, 1, s, [mode |-> "bad"])
      swap(s, j, v) == [s EXCEPT ![j] = v]
      nsev == <<q, T, X, one>>  nsep == <<q, T, one>>  kdvv == <<r, T, "r:-2 -0.2">>  man == <<q, q, T, X, one>>  inv == <<"e:", X, "c:0,0.5", "c:1,1", "r:8", T, one>>
      base == <<<<"nsev", nsev, 2>>, <<"nsep", nsep, 2>>, <<"kdvv", kdvv, 2>>, <<"manakovv", man, 3>>, <<"inverse", inv, 6>>>>
      gen(b) == LET fn == b[1]  s == b[2]  t == b[3] IN
        <<m(fn, SubSeq(s, 1, Len(s) - 1)), m(fn, swap(s, t, "r:1.5 -1")), m(fn, swap(s, t, "r:0 1 2")), m(fn, swap(s, t, "k:0,0 1,0")), m(fn, swap(s, t, "r:1 1")),
          m(fn, s \o <<"s:nonsense">>), m(fn, s \o <<"r:3">>), m(fn, s \o <<"s:quiet", "s:M2">>)>>
        \o (IF fn = "kdvv" THEN <<m(fn, swap(s, 1, q)), m(fn, swap(s, 1, "r:1"))>> ELSE IF fn = "inverse" THEN <<m(fn, swap(s, 5, "r:1")), m(fn, swap(s, 4, "c:1,1 1,2")), m(fn, swap(s, 3, "r:1")), m(fn, swap(s, 1, "r:1 2"))>>
            ELSE <<m(fn, swap(s, 1, r)), m(fn, swap(s, 1, "c:1,0")), m(fn, swap(s, 1, "k:1,0 2,1 0,1 1,1"))>>)
        \o (IF fn = "kdvv" THEN <<>> ELSE <<m(fn, swap(s, Len(s), "r:0")), m(fn, swap(s, Len(s), "r:2")), m(fn, swap(s, Len(s), "r:1 -1"))>>)
        \o (IF fn \in {"nsev", "kdvv"} THEN <<m(fn, s \o <<"s:bsloc_newton">>), m(fn, s \o <<"s:bsloc_newton", "r:1">>), m(fn, s \o <<"s:bsloc_niter", "r:-1">>), m(fn, s \o <<"s:bsloc_niter">>), m(fn, s \o <<"s:M", "r:-2">>), m(fn, s \o <<"s:M", "s:RE">>), m(fn, swap(s, 3, "r:-0.1 -2"))>> ELSE <<>>)
        \o (IF fn = "nsep" THEN <<m(fn, swap(s, 1, "c:1,0 2,1 3,1")), m(fn, s \o <<"s:filt_manual", "r:1 2 3">>), m(fn, s \o <<"s:loc_newton", "c:1,1">>), m(fn, s \o <<"s:points_per_spine", "r:-1">>),
               m(fn, s \o <<"s:loc_newton", "c:1,1 2,2", "c:1,1", "s:points_per_spine", "r:0">>), m(fn, s \o <<"s:loc_newton", "c:1,1 2,2 0,1", "c:1,1">>), m(fn, s \o <<"s:phase_shift">>)>> ELSE <<>>)
        \o (IF fn = "inverse" THEN <<m(fn, s \o <<"s:csmethod_use_seed_potential_instead", "c:1,0 2,2">>), m(fn, s \o <<"s:oversampling_factor", "r:0">>)>> ELSE <<>>)
        \o (IF fn = "manakovv" THEN <<m(fn, swap(s, 2, "c:1,0 2,2"))>> ELSE <<>>)
      b == base[1 + (k[3] % 5)] IN
  gen(b)
Sess(i) == LET k == KeyOf(i)  w == (i \div 7) % 4 IN
  <<Hook>> \o (CASE i % 7 \in {0, 1} -> NsevPair(<<k, 1>>) \o NsevPair(<<k, 2>>) \o NsevPair(<<k, 3>>) [] i % 7 = 2 -> KdvvPair(<<k, 1>>) \o KdvvPair(<<k, 2>>) \o KdvvPair(<<k, 3>>)
     [] i % 7 = 3 -> NsepPair(<<k, 1>>) \o NsepPair(<<k, 2>>) \o NsepPair(<<k, 3>>) [] i % 7 = 4 -> ManPair(<<k, 1>>) \o ManPair(<<k, 2>>) \o ManPair(<<k, 3>>)
     [] i % 7 = 5 -> InvPair(<<k, 1>>) \o InvPair(<<k, 2>>) \o XiPair(k) [] OTHER -> Bad(<<Seed, "J04", i \div 7>>))
(* ------------------------------------------------------------- verdict *)
Dim(r, j) == Get(r, "dim" \o ToString(j), "none")
Out(r, j) == Get(r, "out" \o ToString(j), "")
Count(s) == IF s = "" THEN 0 ELSE Len(NParse(s))
RowOf(s) == "1x" \o ToString(Count(s))
(* the result of the C function, as MATLAB gets it *)
Field(p, j) == CASE p.a.op = "nsep" -> (IF j = 1 THEN "ms" ELSE "as") [] p.a.op = "inverse" -> "q" [] OTHER -> <<"contspec", "bs", "nc">>[j]
(* the eigenvalue solver draws random numbers: clustered roots are only approximately reproducible *)
MostlySame(x, y) == LET u == Num2(x)  w == Num2(y) IN
  /\ Len(u) = Len(w)
  /\ \/ \E i \in 1..Len(u) : ~(CAbs(u[i]) \preceq "1e300")   \* unfiltered refinements that diverged
     \/ 2 * Cardinality({i \in 1..Len(u) : \E l \in 1..Len(w) : CAbs(u[i] \ominus w[l]) \preceq ("0.05" \otimes (1 \oplus CAbs(u[i])))}) >= Len(u)
Agrees(p, a, r, j) ==
  LET x == Str(p.r, Field(p, j))  y == Out(r, j) IN
  IF <<a.first, a.second, a.third>>[j] = 0 THEN Dim(r, j) = "0x0"
  ELSE Dim(r, j) = RowOf(y) /\ (IF Field(p, j) \in {"bs", "ms", "as"} THEN SamePoints(x, y, IF a.eig = 1 THEN "1e-5" ELSE "1e-11") \/ (a.eig = 1 /\ MostlySame(x, y))
                                ELSE IF Field(p, j) = "nc" THEN Count(x) = Count(y) /\ (Str(p.r, "bs") # Out(r, 2) \/ SameField(x, y, "1e-9")) ELSE SameField(x, y, "1e-11"))
J(h, a, r) ==
  IF a.op = "sethook" THEN [hook |-> r.got = "A"]
  ELSE IF a.op # "mex" THEN [answered |-> TRUE]
  ELSE LET p == h[Len(h)]  no == IF a.nlhs > 1 THEN a.nlhs ELSE 1  mode == Get(a, "mode", "pair") IN
  CASE mode = "bad" -> [refused |-> r.failed = 1 /\ r.err # "", nothing |-> r.nout = 0]
    [] mode = "xi" -> [success |-> r.failed = 0 /\ r.nout = no, range |-> SameField(p.r.XI, r.out1, "1e-14"),
                       grid |-> no = 1 \/ LET u == NParse(r.out1)  w == NParse(r.out2) IN Len(w) = a.M /\ \A j \in 1..a.M : CAbs(w[j] \ominus (u[1] \oplus (((j - 1) \otimes (u[2] \ominus u[1])) \oslash (a.M - 1)))) \preceq ("1e-12" \otimes CAbs(u[2]))]
    [] mode = "version" -> [same |-> r.failed = 0 /\ r.nout = 4 /\ r.out1 = NFmt(<<Num(p.r.major)>>) /\ r.out2 = NFmt(<<Num(p.r.minor)>>) /\ r.out3 = NFmt(<<Num(p.r.patch)>>) /\ r.out4 = p.r.suffix]
    [] p.r.ret # 0 -> [reported |-> r.failed = 1 /\ (r.err = a.name \o " failed (error code " \o ToString(p.r.ret) \o ")." \/ (a.fn = "manakovv" /\ a.second = 1 /\ r.err # "")), hook |-> r.hook = IF a.quiet = 1 THEN "none" ELSE "mex"]
    [] OTHER -> [success |-> r.failed = 0, hook |-> r.hook = (IF a.quiet = 1 THEN "none" ELSE "mex"), messages |-> r.printed = (IF a.quiet = 1 THEN 0 ELSE p.r.msgs), outputs |-> r.nout >= no \/ a.fn \in {"nsep", "manakovv"},
                 one |-> r.failed # 0 \/ Agrees(p, a, r, 1), two |-> r.failed # 0 \/ no < 2 \/ Agrees(p, a, r, 2), three |-> r.failed # 0 \/ no < 3 \/ a.fn \in {"nsep", "manakovv"} \/ Agrees(p, a, r, 3)]
=============================================================================
