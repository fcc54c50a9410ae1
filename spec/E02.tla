-------------------------------- MODULE E02 ---------------------------------
(* Manakov: rotations of the polarization, the scalar case, bound states.    *)
EXTENDS Flow, Manakov, Signals
N == Tier(330, 2200)
Dis == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12>>
FastDis == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10>>
Scalar(d) == CASE d = 0 -> 7 [] d = 1 -> 8 [] d = 2 -> 10 [] d = 3 -> 11 [] d = 4 -> 15 [] d = 12 -> 1 [] OTHER -> -1
KeyOf(i) == <<Seed, "E02", i>>
(* unitary matrix from a key *)
Mixing(k) == LET th == Uniform(<<k, "th">>, "0.2", "1.3")  p == CExp(I \otimes Uniform(<<k, "p">>, -3, 3))  r == CExp(I \otimes Uniform(<<k, "r">>, -3, 3))
                 c == CCos(th)  s == CSin(th) IN <<<<c \otimes p, s \otimes r>>, <<CNeg(s) \otimes CConj(r), c \otimes CConj(p)>>>>
Mixed(U, q1, q2) == LET x == VAdd(VScale(U[1][1], q1), VScale(U[2][1], q2))  y == VAdd(VScale(U[1][2], q1), VScale(U[2][2], q2)) IN [q |-> NFmt(x), q2 |-> NFmt(y)]
UStr(U) == NFmt(<<U[1][1], U[1][2], U[2][1], U[2][2]>>)
SwapU == <<<<0, 1>>, <<1, 0>>>>
Zeros(D) == Vec([j \in 1..D |-> Num(0)])
(* ------------------------------------------------------------ continuous *)
ContSess(i) ==
  LET k == KeyOf(i)  d == Dis[1 + (i % 12)]  D == PickSeq(<<k, "D">>, <<5, 8, 13, 16>>)  kap == IF IRand(<<k, "kap">>, 2) = 0 THEN 1 ELSE -1
      t0 == Uniform(<<k, "T0">>, -4, 2)  x0 == Uniform(<<k, "X0">>, -3, 2)
      q1 == NoisyPulse(<<k, 1>>, D, Uniform(<<k, "amp">>, "0.2", "1.3"))  q2 == NoisyPulse(<<k, 2>>, D, Uniform(<<k, "amp2">>, "0.2", "1.3"))
      c == [op |-> "manakovv", q |-> NFmt(q1), q2 |-> NFmt(q2), T |-> RFmt(<<t0, t0 \oplus Uniform(<<k, "w">>, 1, 6)>>), M |-> 3, XI |-> RFmt(<<x0, x0 \oplus "2.1">>),
            cs |-> 1, K |-> -1, kappa |-> kap, o_discretization |-> d, o_contspec_type |-> 2, o_normalization_flag |-> IRand(<<k, "nf">>, 2), mode |-> "mix"]
      U == Mixing(k)
      one == With(c, [q2 |-> NFmt(Zeros(D)), mode |-> "one"])
      other == With(c, [q |-> NFmt(Zeros(D)), q2 |-> c.q, mode |-> "other"])
      nse == [op |-> "nsev", q |-> c.q, T |-> c.T, M |-> 3, XI |-> c.XI, cs |-> 1, K |-> -1, kappa |-> kap, o_discretization |-> Scalar(d), o_contspec_type |-> 2, mode |-> "scalar"]
  IN << With(c, [mode |-> "base"]), With(c, Mixed(U, q1, q2) @@ [U |-> UStr(U)]), With(c, [q |-> c.q2, q2 |-> c.q, U |-> UStr(SwapU)]), one, other >>
     \o (IF Scalar(d) >= 0 THEN <<nse>> ELSE <<>>)
ContJ(h, a, r) ==
  LET cs == NParse(r.contspec)  M == 3 IN
  CASE a.mode = "base" -> [success |-> TRUE]
    [] a.mode = "mix" ->
       LET c0 == NParse(h[1].r.contspec)  u == NParse(a.U)
           img(x, y, n) == VAdd(VScale(CConj(u[n]), x), VScale(CConj(u[2 + n]), y))
           p(v, n) == Part(v, n, M)
       IN [a_invariant |-> VNear(p(cs, 3), p(c0, 3), "1e-9"),
           b_mixes |-> \A n \in 1..2 : VNear(p(cs, 3 + n), img(p(c0, 4), p(c0, 5), n), "1e-9"),
           rho_mixes |-> \A n \in 1..2 : VNear(p(cs, n), img(p(c0, 1), p(c0, 2), n), "1e-8")]
    [] a.mode = "one" -> [other_component_zero |-> VMaxAbs(Part(cs, 5, M)) \preceq "1e-12" /\ VMaxAbs(Part(cs, 2, M)) \preceq "1e-12"]
    [] a.mode = "other" -> LET o == NParse(h[4].r.contspec) IN
       [other_component_zero |-> VMaxAbs(Part(cs, 4, M)) \preceq "1e-12" /\ VMaxAbs(Part(cs, 1, M)) \preceq "1e-12",
        same_as_first |-> VNear(Part(cs, 3, M), Part(o, 3, M), "1e-9") /\ VNear(Part(cs, 5, M), Part(o, 4, M), "1e-9")]
    [] a.mode = "scalar" -> LET o == NParse(h[4].r.contspec) IN
       [scalar_case |-> VNear(Part(cs, 2, M), Part(o, 3, M), "1e-8") /\ VNear(Part(cs, 3, M), Part(o, 4, M), "1e-8")]
(* ------------------------------------------------------------ bound states *)
ZDeg(d) == IF ManName(d) = "FTES4_suzuki" THEN 3 \otimes 2 ELSE Num(ManDegree(d)*ManUp(d))      \* z = exp(2 i l h / ZDeg)
Reach(d) == IF ManName(d) = "FTES4_suzuki" THEN 7 \oslash 3 ELSE Num(1)                           \* powers of z run from exp(-i l h Reach) to exp(i l h Reach)
Amps == <<"0.9", "1.2", "1.9", "2.1">>
BoundSess(i) ==
  LET k == KeyOf(i)  d == FastDis[1 + (i % 10)]  deg == ManDegree(d)*ManUp(d)
      
      \* roots on the rim of the polynomial of a decaying signal are too ill-conditioned at degree 14 per sample
      smooth == (i \div 10) % 2 = 0 /\ ManName(d) # "FTES4_suzuki"
      D == IF smooth THEN (IF deg > 8 THEN 36 ELSE PickSeq(<<k, "D">>, <<40, 48, 96, 150>>)) ELSE PickSeq(<<k, "D">>, IF deg > 8 THEN <<4, 7, 9>> ELSE <<4, 6, 8, 13>>)
      A == PickSeq(<<k, "A">>, Amps)  s == Uniform(<<k, "s">>, "0.8", "1.2")  w == Uniform(<<k, "w">>, "-0.3", "0.3")
      T == IF smooth THEN RFmt(<<"-6.5" \oslash s, "6.3" \oslash s>>) ELSE RFmt(<<Uniform(<<k, "T0">>, -5, -3), Uniform(<<k, "T1">>, 3, 5)>>)
      q == Sech(NParse(T), D, A, s, Uniform(<<k, "t0">>, "-0.5", "0.5"), w, 0)
      U == Mixing(k)  V == Mixing(<<k, 2>>)
      x == IF smooth THEN VScale(U[1][1], q) ELSE NoisyPulse(<<k, 1>>, D, Uniform(<<k, "amp">>, "0.4", "1.2"))
      y == IF smooth THEN VScale(U[1][2], q) ELSE NoisyPulse(<<k, 2>>, D, Uniform(<<k, "amp2">>, "0.4", "1.2"))
      c == [op |-> "manakovv", q |-> NFmt(x), q2 |-> NFmt(y), T |-> T, M |-> 0, cs |-> 0, kappa |-> 1, bs |-> 1, K |-> deg*D, o_discretization |-> d,
            o_Dsub |-> IF smooth /\ deg <= 8 THEN PickSeq(<<k, "ds">>, IF D > 50 THEN <<32, 40, 50>> ELSE <<D, D - 7, 30>>) ELSE IF smooth THEN 0 ELSE D, o_normalization_flag |-> IRand(<<k, "nf">>, 2), mode |-> "bound",
            o_bound_state_filtering |-> 1, e |-> NFmt(IF smooth /\ D < 50 THEN SechEigs(A, s, w) ELSE <<>>)]
  IN << With(c, [o_bound_state_filtering |-> 0]), c, With(c, [M |-> 3, XI |-> "-1 1.5", cs |-> 1, o_contspec_type |-> i % 3]),
        With(c, Mixed(V, x, y)), With(c, [K |-> 2]), With(c, [kappa |-> -1]),
        With(c, [q |-> NFmt(Zeros(D)), q2 |-> NFmt(Zeros(D)), mode |-> "zero"]),
        [op |-> "maxK", kind |-> "manakovv", D |-> D, o_discretization |-> d, mode |-> "maxK"] >>
SubOf(a) == LET D == Len(NParse(a.q)) IN IF a.o_Dsub # 0 THEN a.o_Dsub ELSE LET l == CLog(D) \oslash CLog(2) IN RFloor(CSqrt(D \otimes Sq(l)))
Del3 == Num("1e-5")
NStep3(pr, l) == LET f(x) == ABB(pr, x)[1] IN f(l) \oslash ((f(l \oplus Del3) \ominus f(l \ominus Del3)) \oslash (2 \otimes Del3))
AllZeros3(pr, bs) ==
  LET D == Len(pr.x)
      z(l) == CExp((I \otimes l) \otimes ((2 \otimes pr.h) \oslash ZDeg(pr.d)))
      p(l) == Mono3(pr, l)[1][1] \otimes CExp((I \otimes l) \otimes ((Reach(pr.d) \otimes pr.h) \otimes D))
      zk == Vec([j \in 1..Len(bs) |-> z(bs[j])])
      prod(l1, l2) == LET z1 == z(l1) z2 == z(l2) IN CExp(VSum([j \in 1..Len(zk) |-> CLog((z1 \ominus zk[j]) \oslash (z2 \ominus zk[j]))]))
      same(l1, l2) == LET x == p(l1) \oslash p(l2) IN CAbs(prod(l1, l2) \ominus x) \preceq ("1e-4" \otimes RMax(1, CAbs(x)))
      w == ZDeg(pr.d) \oslash pr.h
  IN same(w \otimes Cx("0.13", "0.3"), w \otimes Cx("-0.21", "0.2")) /\ same(w \otimes Cx("-1.0", "0.2"), w \otimes Cx("0.7", "0.3"))
BoundJ(h, a, r) ==
  LET bs == NParse(r.bs)  D == Len(NParse(a.q))  n == Len(h)
      pr == ManProblem(a.o_discretization, NParse(a.q), NParse(a.q2), NParse(a.T), 1, SubOf(a))
      all == NParse(h[1].r.bs)  ref == NParse(h[2].r.bs)  e == NParse(a.e)
      regular(x) == CAbs(x \otimes pr.h) \preceq "1.2"
      zero(x) == CAbs(NStep3(pr, x)) \preceq "1e-6"
      upper(v) == SelectSeq(v, LAMBDA x : regular(x) /\ "1e-4" \preceq CIm(x))
  IN IF a.kappa = -1 THEN [none |-> r.Kout = 0]
     ELSE IF n = 0 THEN [bounded |-> r.Kout <= a.K, all_zeros |-> AllZeros3(pr, bs)]
     ELSE IF a.K = 2 THEN [truncated |-> r.Kout <= 2 /\ Subset(bs, ref, "1e-6")]
     ELSE [bounded |-> r.Kout <= a.K,
           upper_half_plane |-> \A j \in 1..Len(bs) : 0 \preceq CIm(bs[j]),
           distinct |-> \A j \in 1..Len(bs) : \A m \in 1..(j - 1) : Num("1.4901161193847656e-08") \prec CAbs(bs[j] \ominus bs[m]),
           zeros |-> n # 1 \/ \A j \in 1..Len(bs) : regular(bs[j]) => zero(bs[j]),
           complete |-> n # 1 \/ \A j \in 1..Len(all) : (regular(all[j]) /\ "1e-6" \preceq CIm(all[j])) => VNearest(bs, all[j]) \preceq "1e-6",
           solitons |-> \A j \in 1..Len(e) : VNearest(bs, e[j]) \preceq "0.15",
           invariant |-> n = 1 \/ (Subset(upper(bs), ref, "1e-5") /\ Subset(upper(ref), bs, "1e-5"))]
Sess(i) == IF i % 3 = 0 THEN ContSess(i \div 3) ELSE BoundSess(i - (i \div 3))
J(h, a, r) ==
  IF a.mode = "maxK" THEN [documented_maximum |-> r.val = ManDegree(a.o_discretization)*ManUp(a.o_discretization)*a.D]
  ELSE IF r.ret # 0 THEN [success |-> FALSE]
  ELSE IF a.mode = "zero" THEN [bounded |-> r.Kout <= a.K]
  ELSE IF \E j \in 1..Len(h) : h[j].r.ret # 0 THEN [reference |-> FALSE]
  ELSE IF a.mode = "bound" THEN BoundJ(h, a, r) ELSE ContJ(h, a, r)
=============================================================================
