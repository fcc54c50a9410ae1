-------------------------------- MODULE B03 ---------------------------------
(* Bound states returned by the NSE transform are the zeros of a of the      *)
(* scheme, restricted to the region the filter describes.                    *)
EXTENDS Flow, Nse, Signals
N == Tier(420, 4200)
Amps == <<"0.9", "1.2", "1.9", "2.1", "3.2">>
LowAmps == <<"0.9", "1.2", "1.9", "2.1">>     \* resolved by coarse subsampling
Fast == <<0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 18, 14, 19, 20, 21>>     \* degree at most 12 per step
Whole == RFmt(<<-99, 99, -99, 99>>)
KeyOf(i) == <<Seed, "B03", i>>
(* --------------------------------------------------- Newton from guesses *)
SechCall(k, d, D, amps) ==
  LET A == PickSeq(<<k, "A">>, amps)  s == Uniform(<<k, "s">>, "0.8", "1.3")  w == Uniform(<<k, "w">>, "-0.4", "0.4")
      T == RFmt(<<CNeg(Uniform(<<k, "T0">>, "6.5", "7.5") \oslash s), Uniform(<<k, "T1">>, "6.5", "7.5") \oslash s>>)
      q == Sech(NParse(T), D, A, s, Uniform(<<k, "t0">>, "-0.7", "0.7"), w, Uniform(<<k, "phi">>, -3, 3))
  IN [op |-> "nsev", q |-> NFmt(q), T |-> T, M |-> 0, cs |-> 0, kappa |-> 1, bs |-> 1, o_discretization |-> d,
      o_normalization_flag |-> IRand(<<k, "nf">>, 2), e |-> NFmt(SechEigs(A, s, w)), s |-> RFmt(<<s>>)]
Perturbed(k, e) == Vec([j \in 1..Len(e) |-> e[j] \oplus Cx(Uniform(<<k, j, "x">>, "-0.03", "0.03"), Uniform(<<k, j, "y">>, "-0.03", "0.03"))])
NewtonSess(i) ==
  LET k == KeyOf(i)  d == i % 28  D == PickSeq(<<k, "D">>, <<41, 48, 55, 64>>)
      b == With(SechCall(k, d, D, Amps), [o_bound_state_localization |-> 1])
      e == NParse(b.e)  s == NParse(b.s)[1]  n == Len(e)
      g == Perturbed(<<k, 1>>, e)  g2 == Perturbed(<<k, 2>>, e)  gs == NFmt(g)
      mid == IF n = 1 THEN CIm(e[1]) \oplus ("0.3" \otimes s) ELSE (CIm(e[1]) \oplus CIm(e[2])) \oslash 2
      low == RFmt(<<-9, 9, "0.01", mid>>)  high == RFmt(<<-9, 9, mid, 9>>)  right == RFmt(<<CRe(e[1]) \oplus "0.2", 9, "0.01", 9>>)
      c == With(b, [K |-> n, init |-> gs, o_niter |-> 15])
      fil(f, bx) == With(c, [o_bound_state_filtering |-> f, o_bounding_box |-> bx, mode |-> "conv"])
  IN << fil(0, Whole), fil(1, Whole), fil(2, Whole),
        With(fil(1, Whole), [K |-> 2*n, init |-> NFmt(g \o g2), mode |-> "merge"]),
        With(fil(0, Whole), [K |-> 2*n, init |-> NFmt(g \o g2), mode |-> "conv"]),
        fil(3, low), fil(3, high), fil(3, right),
        With(fil(0, Whole), [o_niter |-> 0, mode |-> "steps", n |-> 0]),
        With(fil(0, Whole), [o_niter |-> 1, o_tol |-> 0, mode |-> "steps", n |-> 1]),
        With(fil(0, Whole), [o_niter |-> 2, o_tol |-> 0, mode |-> "steps", n |-> 2]),
        With(fil(0, Whole), [o_niter |-> 15, o_tol |-> "0.9", mode |-> "steps", n |-> 1]) >>
RECURSIVE Iterate(_, _, _)
Iterate(pr, x, n) == IF n = 0 THEN x ELSE Iterate(pr, x \ominus NewtonStep(pr, x), n - 1)
Inside(b, x) == b[1] \preceq CRe(x) /\ CRe(x) \preceq b[2] /\ b[3] \preceq CIm(x) /\ CIm(x) \preceq b[4]
NewtonJ(a, r) ==
  LET bs == NParse(r.bs)  g == NParse(a.init)  e == NParse(a.e)  T == NParse(a.T)  b == NParse(a.o_bounding_box)
      pr == NseProblem(Refiner(a.o_discretization), NParse(a.q), T, 1)
      \* the guesses whose zero the filter keeps, in order
      keep == SelectSeq([j \in 1..Len(g) |-> j], LAMBDA j : a.o_bound_state_filtering # 3 \/ Inside(b, g[j]))
      zero(x) == CAbs(NewtonStep(pr, x)) \preceq "1e-8"
  IN CASE a.mode = "conv" -> [count |-> r.Kout = Len(keep),
            zeros |-> r.Kout = Len(keep) => \A j \in 1..r.Kout : zero(bs[j]) /\ CAbs(bs[j] \ominus g[keep[j]]) \preceq "0.2"]
       [] a.mode = "merge" -> [merged |-> r.Kout = Len(e) /\ \A j \in 1..Len(e) : VNearest(bs, e[j]) \preceq "0.2",
            zeros |-> \A j \in 1..r.Kout : zero(bs[j])]
       [] a.mode = "steps" -> [iterations |-> r.Kout = Len(g) /\ \A j \in 1..r.Kout : Near(bs[j], Iterate(pr, g[j], a.n), "1e-6")]
(* ---------------------------------------------- all zeros, then filtered *)
FastSess(i) ==
  LET k == KeyOf(i)  d == PickSeq(<<k, "d">>, Fast)
      D == LET mx == 150 \div (Degree(d)*Up(d)) IN PickSeq(<<k, "D">>, IF mx >= 30 THEN <<4, 6, 8, 15, 16, 21, 27>> ELSE IF mx >= 16 THEN <<8, 11, 16>> ELSE <<6, 8, 9>>)
      T == RFmt(<<Uniform(<<k, "T0">>, -5, -3), Uniform(<<k, "T1">>, 3, 5)>>)
      q == NoisyPulse(k, D, Uniform(<<k, "amp">>, "0.5", "1.6"))
      h == StepSize(NParse(T), D)
      bx == RFmt(<<CNeg(Uniform(<<k, "b1">>, "0.1", 1)) \oslash h, Uniform(<<k, "b2">>, "0.1", 1) \oslash h, Uniform(<<k, "b3">>, "-0.5", "0.2") \oslash h, Uniform(<<k, "b4">>, "0.3", 2) \oslash h>>)
      c == [op |-> "nsev", q |-> NFmt(q), T |-> T, M |-> 0, cs |-> 0, kappa |-> 1, bs |-> 1, o_discretization |-> d, K |-> Degree(d)*Up(d)*D,
            o_normalization_flag |-> IRand(<<k, "nf">>, 2), o_bound_state_localization |-> 0, o_bounding_box |-> bx, mode |-> "fast"]
      fil(f) == With(c, [o_bound_state_filtering |-> f])
  IN <<fil(0), fil(1), fil(2), fil(3), [op |-> "maxK", kind |-> "nsev", D |-> D, o_discretization |-> d, mode |-> "maxK"]>>
(* p(z) = c prod (z - z_k) with p(exp(2 i lam h/deg)) = M11(lam) exp(i lam h D) *)
AllZeros(a, bs) ==
  LET pr == NseProblem(a.o_discretization, NParse(a.q), NParse(a.T), 1)
      D == Len(pr.p.q)  dg == Degree(a.o_discretization)*Up(a.o_discretization)
      z(lam) == CExp((I \otimes lam) \otimes ((2 \otimes pr.h) \oslash dg))
      p(lam) == MonoOf(pr, lam)[1][1] \otimes CExp((I \otimes lam) \otimes (D \otimes pr.h))
      zk == Vec([j \in 1..Len(bs) |-> z(bs[j])])
      prod(l1, l2) == LET z1 == z(l1) z2 == z(l2) IN CExp(VSum([j \in 1..Len(zk) |-> CLog((z1 \ominus zk[j]) \oslash (z2 \ominus zk[j]))]))
      same(l1, l2) == LET x == p(l1) \oslash p(l2) IN CAbs(prod(l1, l2) \ominus x) \preceq ("1e-4" \otimes RMax(1, CAbs(x)))
      w == dg \oslash pr.h
  IN same(w \otimes Cx("0.13", "0.3"), w \otimes Cx("-0.21", "0.2")) /\ same(w \otimes Cx("-1.0", "0.2"), w \otimes Cx("0.7", "0.3"))
MergeTol == Num("1.4901161193847656e-08")
BoxOf(a) ==
  LET q == NParse(a.q) T == NParse(a.T) h == StepSize(T, Len(q))  inf == Num("1e300")
      \* for schemes on resampled signals the energy is that of the samples handed to them
      prep == NseProblem(a.o_discretization, q, T, 1).p.q
      sm == IF DisName(a.o_discretization) \in {"ES4", "TES4"} THEN q ELSE Fold(LAMBDA acc, x : acc \o x, <<>>, prep)
      en == VSum([j \in 1..Len(sm) |-> Sq(CAbs(sm[j]))]) \otimes (((T[2] \ominus T[1]) \oplus h) \oslash Len(sm))
      re == ("0.9" \otimes Pi) \oslash (h \otimes (2 \oslash (IF IsSlow(a.o_discretization) THEN 1 ELSE Degree(a.o_discretization))))
  IN CASE a.o_bound_state_filtering = 1 -> <<CNeg(inf), inf, Num(0), inf>>
       [] a.o_bound_state_filtering = 2 -> <<CNeg(re), re, Num(0), "0.375" \otimes en>>
       [] a.o_bound_state_filtering = 3 -> NParse(a.o_bounding_box)
Grow(b, x) == <<b[1] \ominus x, b[2] \oplus x, b[3] \ominus x, b[4] \oplus x>>
Filtered(b, all, bs) ==
  LET e == Num("1e-9") IN
  [inside |-> \A j \in 1..Len(bs) : Inside(Grow(b, e), bs[j]),
   \* the eigenvalue solver takes random exceptional shifts: repeatable up to rounding
   found |-> Subset(bs, all, "1e-6"),
   complete |-> \A j \in 1..Len(all) : Inside(Grow(b, CNeg(e)), all[j]) => VNearest(bs, all[j]) \preceq "1e-6",
   distinct |-> \A j \in 1..Len(bs) : \A m \in 1..(j - 1) : MergeTol \prec CAbs(bs[j] \ominus bs[m])]
FastJ(h, a, r) ==
  LET bs == NParse(r.bs) IN
  IF a.o_bound_state_filtering = 0
  THEN [count |-> r.Kout <= a.K, all_zeros |-> AllZeros(a, bs)]
  ELSE IF h[1].r.ret # 0 THEN [reference |-> FALSE] ELSE Filtered(BoxOf(a), NParse(h[1].r.bs), bs)
(* -------------------------------------------------- subsample and refine *)
SubSess(i) ==
  LET k == KeyOf(i)  d == PickSeq(<<k, "d">>, Fast)
      D == IF Degree(d) > 6 THEN 48 ELSE PickSeq(<<k, "D">>, <<48, 61, 80, 96>>)
      b == SechCall(k, d, D, LowAmps)
      e == NParse(b.e)  s == NParse(b.s)[1]
      bx == RFmt(<<CRe(e[1]) \ominus "0.6", CRe(e[1]) \oplus "0.6", CIm(e[Len(e)]) \ominus ("0.25" \otimes s), CIm(e[1]) \oplus s>>)
      c == With(b, [K |-> Degree(d)*Up(d)*D, o_niter |-> 25, o_bound_state_localization |-> 2, o_bounding_box |-> bx, mode |-> "sub",
                    o_Dsub |-> IF IRand(<<k, "ds">>, 2) = 0 THEN 0 ELSE 44 + IRand(<<k, "dss">>, 2*D - 44)])
  IN <<With(c, [o_bound_state_filtering |-> 2]), With(c, [o_bound_state_filtering |-> 3]), With(c, [o_bound_state_filtering |-> 1])>>
SubJ(a, r) ==
  LET bs == NParse(r.bs)  e == NParse(a.e)  b == BoxOf(a)
      pr == NseProblem(Refiner(a.o_discretization), NParse(a.q), NParse(a.T), 1)
      zero(x) == CAbs(NewtonStep(pr, x)) \preceq "1e-8"
  IN [inside |-> \A j \in 1..Len(bs) : Inside(Grow(b, "1e-9"), bs[j]),
      distinct |-> \A j \in 1..Len(bs) : \A m \in 1..(j - 1) : MergeTol \prec CAbs(bs[j] \ominus bs[m]),
      zeros |-> r.warns > 0 \/ \A j \in 1..Len(bs) : CAbs(bs[j] \otimes pr.h) \preceq 3 => zero(bs[j]),
      solitons |-> \A j \in 1..Len(e) : \E m \in 1..Len(bs) : CAbs(bs[m] \ominus e[j]) \preceq "0.15" /\ zero(bs[m])]
Sess(i) == CASE i % 3 = 0 -> NewtonSess(i \div 3) [] i % 3 = 1 -> FastSess(i) [] i % 3 = 2 -> SubSess(i)
J(h, a, r) ==
  IF a.mode = "maxK" THEN [documented_maximum |-> r.val = Degree(a.o_discretization)*Up(a.o_discretization)*a.D]
  ELSE IF r.ret # 0 THEN [success |-> FALSE]
  ELSE IF a.mode = "fast" THEN FastJ(h, a, r)
  ELSE IF a.mode = "sub" THEN SubJ(a, r)
  ELSE NewtonJ(a, r)
=============================================================================
