------------------------------ MODULE Floquet -------------------------------
(* Periodic signals of the nonlinear Schroedinger equation, the calls made   *)
(* with them, and the functions of the spectral parameter whose zeros are    *)
(* their main and auxiliary spectra.                                         *)
EXTENDS Nse, Signals
Fast == <<0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15, 20, 21>>
Slow == <<1, 22, 23, 24, 25, 26, 27>>
(* -------------------------------------------------------------- signals *)
Signal(k, D, w) ==
  LET c(m) == Cx(Uniform(<<k, m, "r">>, -1, 1), Uniform(<<k, m, "i">>, -1, 1))
      c0 == c(0) c1 == c(1) cm == c(-1) c2 == c(2)
      th(j) == (2 \otimes Pi) \otimes ((j - 1) \oslash D)
      e(m, j) == CExp(I \otimes (m \otimes th(j)))
      noise == IF IRand(<<k, "noisy">>, 2) = 0 THEN Num(0) ELSE Num("0.15")
      u == Vec([j \in 1..D |-> ((c0 \oplus (("0.5" \otimes c1) \otimes e(1, j))) \oplus ((("0.3" \otimes cm) \otimes e(-1, j)) \oplus (("0.15" \otimes c2) \otimes e(2, j))))
                               \oplus (noise \otimes Cx(Uniform(<<k, j, "nr">>, -1, 1), Uniform(<<k, j, "ni">>, -1, 1)))])
      top == RMin(Uniform(<<k, "top">>, "0.3", "1.6"), ("0.8" \otimes D) \oslash w)    \* resolved: less than 0.8 per step
  IN VScale(top \oslash VMaxAbs(u), u)
(* the signal of a quasi-period is the periodic one times exp(i phase (t-T0)/L) *)
Ramp(u, T, ph) == LET D == Len(u) IN Vec([j \in 1..D |-> u[j] \otimes CExp(I \otimes (ph \otimes ((j - 1) \oslash D)))])
Box(k, kap, w) ==
  LET r == Uniform(<<k, "b">>, -4, "1.5") IN
  <<r, r \oplus Uniform(<<k, "b2">>, "1.5", 6), CNeg(Uniform(<<k, "b3">>, "0.4", 2)), Uniform(<<k, "b4">>, "0.4", 2)>>
Common(k, D, d, kap) ==
  LET w == Uniform(<<k, "w">>, 3, 7)  t0 == Uniform(<<k, "t0">>, -4, 4)
      T == RFmt(<<t0, t0 \oplus w>>)
      ph == IF IRand(<<k, "ph">>, 3) = 0 THEN Uniform(<<k, "phv">>, -3, 3) ELSE Num(0)
      dg == IF Degree(d) = 0 THEN 1 ELSE Degree(d)*Up(d)
  IN [op |-> "nsep", q |-> NFmt(Ramp(Signal(k, D, w), NParse(T), ph)), T |-> T, phase |-> RFmt(<<ph>>), kappa |-> kap, K |-> 2*dg*D + 4, M |-> dg*D + 4, ms |-> 1, as |-> 1,
      o_discretization |-> d, o_normalization_flag |-> IRand(<<k, "nf">>, 2), o_bounding_box |-> RFmt(Box(k, kap, w))]
Kap(k) == PickSeq(<<k, "kap">>, <<1, -1>>)
Hook == [op |-> "sethook", h |-> "A"]
(* ------------------------------------------------------------- sessions *)
GridSess(k) ==
  LET d == PickSeq(<<k, "d">>, Fast)  D == PickSeq(<<k, "D">>, IF Up(d) = 2 THEN <<4, 8, 16>> ELSE IF Degree(d) > 6 THEN <<2, 4, 8>> ELSE <<2, 4, 8, 16, 32>>)
      c == With(Common(k, D, d, Kap(k)), [o_localization |-> 2, o_filtering |-> PickSeq(<<k, "fil">>, <<0, 1, 1, 2>>), mode |-> "grid"])
  IN <<Hook, c, With(c, [as |-> 0, M |-> 0])>> \o (IF c.o_filtering = 0 THEN <<With(c, [ms |-> 0, K |-> 0])>> ELSE <<>>)
(* without filtering and refinement: all zeros of the polynomials (the modal *)
(* scheme needs |q| h < 1 in the defocusing case, so it takes all samples)   *)
AllSess(k) ==
  LET d == PickSeq(<<k, "d">>, SelectSeq(Fast, LAMBDA x : Degree(x) <= 4))  D == PickSeq(<<k, "D">>, IF Up(d) = 2 THEN <<4, 8, 16, 32>> ELSE <<2, 4, 8, 16, 32>>)
      n == PickSeq(<<k, "n">>, <<2, 2, 1, 3>>)
      c0 == Common(k, D, d, Kap(k))
      c1 == With(c0, [o_localization |-> 0, o_filtering |-> 0, o_max_evals |-> 0, o_points_per_spine |-> n, K |-> n*Degree(d)*Up(d)*D, M |-> Degree(d)*Up(d)*D,
                      o_Dsub |-> IF d = 0 /\ c0.kappa = -1 THEN D ELSE PickSeq(<<k, "Dsub">>, <<0, D, D, D \div 2, D \div 4>>), mode |-> "all"])
      c == IF n = 2 THEN c1 ELSE With(c1, [o_floquet_range |-> RFmt(<<Uniform(<<k, "f0">>, -1, "0.1"), Uniform(<<k, "f1">>, "0.2", 1)>>)])
  IN <<Hook, c, With(c, [o_filtering |-> 1, mode |-> "filtered"]), With(c, [o_filtering |-> 2, mode |-> "filtered"]),
       With(c, [o_filtering |-> 1, o_max_evals |-> 60, mode |-> "refined"])>>
Fine(k) ==
  LET d == PickSeq(<<k, "d">>, SelectSeq(Fast, LAMBDA x : Degree(x) <= 4))  D == PickSeq(<<k, "D">>, <<16, 32>>)
  IN With(Common(k, D, d, Kap(k)), [o_filtering |-> PickSeq(<<k, "fil">>, <<1, 1, 2>>)])
MixedSess(k) ==
  LET c == With(Fine(k), [o_max_evals |-> PickSeq(<<k, "ev">>, <<0, 60>>)])
  IN <<Hook, With(c, [o_localization |-> 0, mode |-> "refined"]), With(c, [o_localization |-> 2, mode |-> "grid"]), With(c, [o_localization |-> 3, mode |-> "mixed"])>>
NewtonSess(k) ==
  LET d == PickSeq(<<k, "d">>, Slow)  D == PickSeq(<<k, "D">>, <<8, 16, 32>>)
      n == PickSeq(<<k, "n">>, <<1, 2, 3>>)  Kg == 1 + IRand(<<k, "Kg">>, 3)  Mg == 1 + IRand(<<k, "Mg">>, 3)
      g(s, m) == Vec([j \in 1..m |-> Cx(Uniform(<<k, s, j, "r">>, "-1.2", "1.2"), Uniform(<<k, s, j, "i">>, "-0.8", "0.8"))])
      g1 == g("main", n*Kg)  g2 == g("aux", Mg)
      c0 == Common(k, D, d, Kap(k))
      c == With(c0, [o_localization |-> 1, o_filtering |-> 0, K |-> n*Kg, Kg |-> Kg, M |-> Mg, init |-> NFmt(g1), inita |-> NFmt(g2), o_points_per_spine |-> n, o_max_evals |-> 60, mode |-> "newton",
                     o_floquet_range |-> IF n = 3 THEN RFmt(<<Uniform(<<k, "f0">>, -1, 0), Uniform(<<k, "f1">>, "0.1", 1)>>) ELSE "-1 1"])
  IN <<Hook, c, With(c, [o_filtering |-> 1]), With(c, [o_filtering |-> 2]), With(c, [o_max_evals |-> 0]), With(c, [o_max_evals |-> 1]), With(c, [as |-> 0, M |-> 0]), With(c, [ms |-> 0, K |-> 0])>>
(* -------------------------------------------------------------- oracle *)
Period(a) == LET T == NParse(a.T) IN T[2] \ominus T[1]
(* removing the phase: the spectra of the periodic signal are those of the  *)
(* given one, moved by half the phase per unit of time                       *)
Move(a) == CNeg(NParse(a.phase)[1]) \oslash (2 \otimes Period(a))
Periodic(a) == LET q == NParse(a.q)  D == Len(q)  T == NParse(a.T)  h == Period(a) \oslash D  s == Move(a) IN
   Vec([j \in 1..D |-> q[j] \otimes CExp((2 \otimes (I \otimes s)) \otimes (T[1] \oplus ((j - 1) \otimes h)))])
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2*Pow2(n - 1)
Near2(x) == Pow2(RFloor((CLog(x) \oslash CLog(2)) \oplus "0.5"))
DsubOf(a) == LET D == Len(NParse(a.q))  w == Get(a, "o_Dsub", 0)  l == CLog(D) \oslash CLog(2)
                 e == (CLog(D \otimes Sq(l)) \oslash CLog(2)) \otimes "0.5"  f == RFloor(e)
                 s == IF w # 0 THEN Near2(w) ELSE Pow2(IF CEq(f, e) THEN f ELSE f + 1)
             IN IF s > D THEN D ELSE IF s < 2 THEN 2 ELSE s
(* problems: on all samples, on some of them, and refined *)
Whole(a) == LET q == Periodic(a)  h == Period(a) \oslash Len(q) IN [d |-> a.o_discretization, h |-> h, p |-> NsePrep(a.o_discretization, Len(q), q, h, a.kappa)]
Coarse(a) == LET q == Periodic(a)  h == Period(a) \oslash Len(q)  s == DsubOf(a) IN
   [d |-> a.o_discretization, h |-> h \otimes SkipOf(Len(q), s), p |-> NsePrep(a.o_discretization, s, q, h, a.kappa)]
Base(a) == LET w == Whole(a) IN [w EXCEPT !.d = Refiner(a.o_discretization)]
Trace(m) == m[1][1] \oplus m[2][2]
(* value, derivatives and scale of a function of the spectral parameter      *)
Dl == Num("1e-4")
Around(f(_), x) ==
  LET y == f(x)  u == f(x \oplus Dl)  v == f(x \ominus Dl) IN
  [f |-> y, d1 |-> (u \ominus v) \oslash (2 \otimes Dl), d2 |-> ((u \ominus (2 \otimes y)) \oplus v) \oslash Sq(Dl)]
(* is there a zero of f within delta of the point?  First order in delta for *)
(* simple zeros, second order for double ones.                               *)
Close(t, delta, noise) == CAbs(t.f) \preceq ((noise \oplus (delta \otimes CAbs(t.d1))) \oplus (Sq(delta) \otimes CAbs(t.d2)))
Scale(m) == RMax(RMax(CAbs(m[1][1]), CAbs(m[2][2])), RMax(1, RMax(CAbs(m[1][2]), CAbs(m[2][1]))))
Rhs(a) == LET n == Get(a, "o_points_per_spine", 2)  f == IF Has(a, "o_floquet_range") THEN NParse(a.o_floquet_range) ELSE <<Num(-1), Num(1)>>
              st == IF n > 1 THEN (f[2] \ominus f[1]) \oslash (n - 1) ELSE Num(0)
          IN Vec([j \in 1..n |-> 2 \otimes (f[1] \oplus ((j - 1) \otimes st))])
IsMain(pr, rhs, x, delta, ns) ==
  LET sc == Scale(MonoOf(pr, x))  g(y) == Trace(MonoOf(pr, y))  t == Around(g, x) IN
  \E j \in 1..Len(rhs) : Close(With(t, [f |-> t.f \ominus rhs[j]]), delta, ns \otimes sc)
IsAux(pr, x, delta, ns) == LET sc == Scale(MonoOf(pr, x))  g(y) == MonoOf(pr, y)[1][2] IN Close(Around(g, x), delta, ns \otimes sc)
(* the region of the filter, before the phase is taken into account *)
DegOf(d) == IF IsSlow(d) THEN 2 ELSE Degree(d)*Up(d)
AutoDeg(d) == IF IsSlow(d) THEN 2 ELSE Degree(d)
AutoBox(a, h) == LET m == 2 \oslash AutoDeg(a.o_discretization)  re == ("0.9" \otimes Pi) \oslash (m \otimes h)  im == CLog(10) \oslash (m \otimes h) IN <<CNeg(re), re, CNeg(im), im>>
BoxOf(a, h) == CASE a.o_filtering = 0 -> <<Num("-1e300"), Num("1e300"), Num("-1e300"), Num("1e300")>>
                 [] a.o_filtering = 1 -> LET b == NParse(a.o_bounding_box)  s == Move(a) IN <<b[1] \ominus s, b[2] \ominus s, b[3], b[4]>>
                 [] a.o_filtering = 2 -> AutoBox(a, h)
Inside(b, z) == b[1] \preceq CRe(z) /\ CRe(z) \preceq b[2] /\ b[3] \preceq CIm(z) /\ CIm(z) \preceq b[4]
Grow(b, x) == <<b[1] \ominus x, b[2] \oplus x, b[3] \ominus x, b[4] \oplus x>>
Str(r, f) == IF Has(r, f) THEN r[f] ELSE ""
Num2(s) == IF s = "" THEN <<>> ELSE NParse(s)
Back(a, s) == LET u == Num2(s)  m == Move(a) IN Vec([j \in 1..Len(u) |-> u[j] \ominus m])
(* the grid of a search *)
GridStep(a, pr) ==      \* 32 points per zero of the polynomial, on the part of the circle inside the box
  LET b == BoxOf(a, pr.h)  D == Len(pr.p.q)  dg == DegOf(pr.d)
      half == Pi \oslash ((2 \oslash dg) \otimes pr.h)
      lo == IF a.o_filtering = 0 THEN CNeg(half) ELSE RMax(b[1], CNeg(half))  hi == IF a.o_filtering = 0 THEN half ELSE RMin(b[2], half)
  IN [lo |-> lo, hi |-> hi, st |-> (hi \ominus lo) \oslash (32*dg*D - 1)]
=============================================================================
