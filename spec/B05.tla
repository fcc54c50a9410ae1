-------------------------------- MODULE B05 ---------------------------------
(* Richardson extrapolation: (s*full - half)/(s - 1) with s the ratio of the *)
(* steps to the power of the order, where the half rate result resolves the  *)
(* frequency; the same for bound states and derivatives of a.                *)
EXTENDS Flow, Nse, Kdv, Manakov, Signals
N == Tier(420, 4200)
KeyOf(i) == <<Seed, "B05", i>>
ManDis == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12>>
HalfRate(D) == D \div 2
Kind(a) == a.op
(* problem at the full rate and at (about) half the rate *)
Full(a) == LET q == NParse(a.q) T == NParse(a.T) d == a.o_discretization IN
  CASE a.op = "nsev" -> NseProblem(d, q, T, a.kappa) [] a.op = "kdvv" -> KdvProblem(d, q, T) [] OTHER -> ManProblem(d, q, NParse(a.q2), T, a.kappa, Len(q))
Half(a) == LET q == NParse(a.q) T == NParse(a.T) d == a.o_discretization m == HalfRate(Len(q)) IN
  CASE a.op = "nsev" -> NseSub(d, q, T, a.kappa, m) [] a.op = "kdvv" -> KdvSub(d, q, T, m) [] OTHER -> ManProblem(d, q, NParse(a.q2), T, a.kappa, m)
OrderOf(a) == LET d == a.o_discretization IN CASE a.op = "nsev" -> Order(d) [] a.op = "kdvv" -> Order(KdvBase(d)) [] OTHER -> ManOrder(d)
Spectrum(a, pr, g) ==
  LET t == a.o_contspec_type IN
  CASE a.op = "nsev" -> Layout(t, Vec([j \in 1..Len(g) |-> AB(pr, g[j])]))
    [] a.op = "kdvv" -> Layout(t, Vec([j \in 1..Len(g) |-> KdvAB(pr, g[j])]))
    [] OTHER -> MLayout(t, Vec([j \in 1..Len(g) |-> ABB(pr, g[j])]))
Combine(s, f, h) == ((s \otimes f) \ominus h) \oslash (s \ominus 1)
(* ------------------------------------------------------------ continuous *)
ContCall(k, op, i) ==
  LET D == PickSeq(<<k, "D">>, IF op = "manakovv" THEN <<6, 8, 9, 12, 13, 17>> ELSE <<4, 5, 6, 7, 9, 12, 13, 16, 21>>)
      M == PickSeq(<<k, "M">>, <<1, 2, 3, 5, 6>>)
      t0 == Uniform(<<k, "T0">>, -4, 2)  T == <<t0, t0 \oplus Uniform(<<k, "w">>, "0.5", 6)>>
      h == (T[2] \ominus T[1]) \oslash (D - 1)
      \* the limit of the resolved frequencies lies inside most grids
      lim == ("0.45" \otimes Pi) \oslash (h \otimes SkipOf(D, HalfRate(D)))
      neg == CNeg(lim \otimes Uniform(<<k, "x0">>, "0.1", "1.6"))  top == lim \otimes Uniform(<<k, "x1">>, "0.15", "1.6")
      XI == IF op = "kdvv" /\ IRand(<<k, "xi">>, 2) = 0 THEN <<lim \otimes Uniform(<<k, "x2">>, "0.1", "0.4"), top \oplus (lim \otimes "0.5")>> ELSE <<neg, top>>
      kap == IF op = "kdvv" \/ IRand(<<k, "kap">>, 2) = 0 THEN 1 ELSE -1
      d == CASE op = "nsev" -> (i \div 5) % 28 [] op = "kdvv" -> (i \div 5) % 56 [] OTHER -> ManDis[1 + ((i \div 5) % 12)]
      \* the modal scheme is defined for |q|h < 1 only when defocusing
      amp == RMin(Uniform(<<k, "amp">>, "0.2", "1.3"), IF op = "nsev" /\ d = 0 /\ kap = -1 THEN "0.5" \oslash (h \otimes SkipOf(D, HalfRate(D))) ELSE 9)
      q == NoisyPulse(<<k, 1>>, D, amp)
      re == Vec([j \in 1..D |-> CRe(q[j])])
  IN [op |-> op, q |-> NFmt(IF op = "kdvv" THEN re ELSE q), q2 |-> NFmt(NoisyPulse(<<k, 2>>, D, amp)), T |-> RFmt(T), M |-> M, XI |-> RFmt(XI), cs |-> 1, K |-> -1,
      kappa |-> kap, o_contspec_type |-> 2, o_normalization_flag |-> IRand(<<k, "nf">>, 2),
      o_discretization |-> d,
      o_richardson_extrapolation_flag |-> 1]
ContSess(k, op, i) == LET c == ContCall(k, op, i) IN <<With(c, [o_richardson_extrapolation_flag |-> 0]), c, With(c, [o_contspec_type |-> 0]), With(c, [o_contspec_type |-> 1, o_normalization_flag |-> 1 - c.o_normalization_flag])>>
ContJ(h, a, r) ==
  LET M == a.M  g == Vec(Grid(NParse(a.XI), M))  f == Full(a)  s2 == Half(a)
      s == RPow(s2.h \oslash f.h, OrderOf(a))  lim == ("0.45" \otimes Pi) \oslash s2.h
      x == Spectrum(a, f, g)  y == Spectrum(a, s2, g)  cs == NParse(r.contspec)
      low(j) == CAbs(g[1 + ((j - 1) % M)]) \prec lim
      edge(j) == LET gj == CAbs(g[1 + ((j - 1) % M)]) IN CAbs(gj \ominus lim) \preceq ("1e-9" \otimes lim)
      exp == Vec([j \in 1..Len(x) |-> IF low(j) THEN Combine(s, x[j], y[j]) ELSE x[j]])
      got == Vec([j \in 1..Len(x) |-> IF edge(j) THEN exp[j] ELSE cs[j]])
      size == RMax(1, RMax(VMaxAbs(x), VMaxAbs(y)))
  IN IF a.o_richardson_extrapolation_flag = 0 THEN [scattering_data |-> VNear(cs, x, "1e-8")]
     ELSE [length |-> Len(cs) = Len(x),
           extrapolated |-> Len(cs) # Len(x) \/ \A j \in 1..Len(x) : CAbs(got[j] \ominus exp[j]) \preceq ("2e-8" \otimes size)]
(* -------------------------------------------------------------- discrete *)
Sech2(T, D, A, s, t0) == LET t == Instants(T, D)  c == (A \otimes (A \oplus 1)) \otimes Sq(s) IN
   Vec([j \in 1..D |-> c \otimes Sq(SechR(s \otimes (t[j] \ominus t0)))])
Sech2Eigs(A, s) == LET n == RFloor(A \oplus "0.9999999") IN Vec([k \in 1..n |-> Cx(0, s \otimes ((A \oplus 1) \ominus k))])
DiscSess(k, op, i) ==
  LET kdv == op = "kdvv"
      d == IF kdv THEN (i \div 5) % 56 ELSE (i \div 5) % 28
      A == PickSeq(<<k, "A">>, IF kdv THEN <<"0.7", "1.4", "2.3">> ELSE <<"0.9", "1.2", "1.9", "2.1">>)  s == Uniform(<<k, "s">>, "0.8", "1.2")  w == Uniform(<<k, "w">>, "-0.3", "0.3")
      D == PickSeq(<<k, "D">>, <<40, 45, 51, 64>>)
      T == RFmt(<<CNeg(Uniform(<<k, "T0">>, "6.5", "7.5") \oslash s), Uniform(<<k, "T1">>, "6.5", "7.5") \oslash s>>)
      t0 == Uniform(<<k, "t0">>, "-0.5", "0.5")
      q == IF kdv THEN Sech2(NParse(T), D, A, s, t0) ELSE Sech(NParse(T), D, A, s, t0, w, Uniform(<<k, "phi">>, -3, 3))
      e == IF kdv THEN Sech2Eigs(A, s) ELSE SechEigs(A, s, w)  n == Len(e)
      g == Vec([j \in 1..n |-> e[j] \oplus Cx(IF kdv THEN 0 ELSE Uniform(<<k, j, "x">>, "-0.03", "0.03"), s \otimes Uniform(<<k, j, "g">>, "-0.03", "0.03"))])
      fast == ~kdv /\ ~IsSlow(d) /\ Degree(d)*Up(d) <= 4  grid == kdv /\ IRand(<<k, "loc">>, 3) = 0
      loc == IF kdv THEN (IF grid THEN 1 ELSE 0) ELSE IF fast THEN PickSeq(<<k, "loc">>, <<0, 1, 2>>) ELSE 1
      c0 == [op |-> op, q |-> NFmt(q), T |-> T, M |-> 0, cs |-> 0, kappa |-> 1, bs |-> 1, nc |-> 1, K |-> IF (kdv /\ ~grid) \/ (~kdv /\ loc = 1) THEN n ELSE IF kdv THEN 12 ELSE Degree(d)*Up(d)*D,
            o_discretization |-> d, o_discspec_type |-> 2, o_bound_state_localization |-> loc, o_niter |-> 15, o_normalization_flag |-> IRand(<<k, "nf">>, 2),
            o_richardson_extrapolation_flag |-> 1, o_grid_spacing |-> RFmt(<<"0.17" \otimes s>>)]
      c1 == IF (kdv /\ ~grid) \/ (~kdv /\ loc = 1) THEN With(c0, [init |-> NFmt(g)]) ELSE c0
      c == IF kdv THEN c1 ELSE With(c1, [o_bound_state_filtering |-> IF loc = 1 THEN 0 ELSE 2])
  IN <<With(c, [o_richardson_extrapolation_flag |-> 0]), c, With(c, [o_discspec_type |-> 0, M |-> 2, XI |-> "-1 1.5", cs |-> 1]), With(c, [o_discspec_type |-> 1])>>
KStep(pr, x) == LET a == KdvA(pr, x)  p == KdvAPrime(pr, x) IN CRe(a) \oslash Cx(0, CIm(p))
StepAt(op, pr, x) == IF op = "kdvv" THEN KStep(pr, x) ELSE NewtonStep(pr, x)
RECURSIVE Refined(_, _, _, _)
Refined(op, pr, x, n) == IF n = 0 THEN x ELSE LET s == StepAt(op, pr, x) IN IF CAbs(s) \preceq "1e-13" THEN x ELSE Refined(op, pr, x \ominus s, n - 1)
DiscJ(h, a, r) ==
  IF Len(h) = 0 THEN [success |-> TRUE] ELSE
  LET f == h[1].r  fb == NParse(f.bs)  fn == NParse(f.nc)  K == f.Kout
      bs == NParse(r.bs)  nc == NParse(r.nc)  ty == a.o_discspec_type
      d == IF a.op = "kdvv" THEN KdvRefiner(a.o_discretization) ELSE Refiner(a.o_discretization)
      pf == Full(a)  ph == [Half(a) EXCEPT !.d = d]  s == RPow(ph.h \oslash pf.h, OrderOf(a))
      sub == Vec([j \in 1..K |-> Refined(a.op, ph, fb[j], 15)])
      err(j) == CAbs(fb[j] \ominus sub[j]) \oslash CAbs(fb[j])
      match(j) == err(j) \prec pf.h
      clear(j) == CAbs(err(j) \ominus pf.h) \preceq ("1e-6" \otimes pf.h)         \* too close to call
      ap(j) == IF a.op = "kdvv" THEN KdvAPrime(ph, sub[j]) ELSE APrime(ph, sub[j])
      eb == Vec([j \in 1..K |-> IF match(j) THEN Combine(s, fb[j], sub[j]) ELSE fb[j]])
      er == Vec([j \in 1..K |-> IF match(j) THEN fn[j] \oslash Combine(s, fn[j] \oslash fn[K + j], ap(j)) ELSE fn[K + j]])
      \* matched by position; the order of the eigenvalues is not part of the property
      at(j) == CHOOSE m \in 1..K : \A n \in 1..K : CAbs(eb[m] \ominus bs[j]) \preceq CAbs(eb[n] \ominus bs[j])
      \* KdV zeros of these schemes are zeros of the real part of a only
      rtol == IF a.op = "kdvv" /\ KdvName(a.o_discretization) \in {"CF5_3", "CF6_4"} THEN "2e-3" ELSE "1e-5"
      rel(x, y, tol) == CAbs(x \ominus y) \preceq (tol \otimes CAbs(y))
  IN [count |-> r.Kout = K /\ Len(bs) = K /\ Len(nc) = (IF ty = 2 THEN 2 ELSE 1)*K] @@
     (IF r.Kout # K \/ Len(bs) # K \/ Len(nc) # (IF ty = 2 THEN 2 ELSE 1)*K THEN [x |-> TRUE] ELSE
     [bound_states |-> \A j \in 1..K : LET m == at(j) IN clear(m) \/ CAbs(bs[j] \ominus eb[m]) \preceq "1e-7",
      norming_constants |-> ty = 1 \/ \A j \in 1..K : rel(nc[j], fn[at(j)], "1e-6"),
      residues |-> ty = 0 \/ \A j \in 1..K : LET m == at(j) IN clear(m) \/ rel(IF ty = 1 THEN nc[j] ELSE nc[K + j], er[m], rtol)])
Sess(i) == LET k == KeyOf(i) IN
  CASE i % 5 = 0 -> ContSess(k, "nsev", i) [] i % 5 = 1 -> ContSess(k, "kdvv", i) [] i % 5 = 2 -> ContSess(k, "manakovv", i)
    [] i % 5 = 3 -> DiscSess(k, "nsev", i) [] OTHER -> DiscSess(k, "kdvv", i)
J(h, a, r) == IF r.ret # 0 THEN [success |-> FALSE] ELSE IF \E j \in 1..Len(h) : h[j].r.ret # 0 THEN [reference |-> FALSE]
              ELSE IF a.cs = 1 /\ ~Has(a, "nc") THEN ContJ(h, a, r) ELSE DiscJ(h, a, r)
=============================================================================
