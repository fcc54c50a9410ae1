-------------------------------- MODULE A07 ---------------------------------
(* An iteration that ends above its tolerance is announced by a warning, and *)
(* nothing is announced otherwise.  The iterations are followed here step by *)
(* step: Newton's method for bound states, Newton's method with a choice     *)
(* between simple and double zeros for main spectra, Newton's method for     *)
(* auxiliary spectra.  The fixed point iteration of the inverse transform    *)
(* and the condition of a spectral factorization are judged from outside.    *)
EXTENDS Flow, Floquet
N == Tier(210, 5600)
KeyOf(i) == <<Seed, "A07", i>>
Whole4 == RFmt(<<-99, 99, -99, 99>>)
Tols == <<"0.03", "3e-3", "1e-4", "1e-6", "1e-9">>
(* ------------------------------------------------------------ sessions *)
BsSess(k) ==
  LET A == PickSeq(<<k, "A">>, <<"0.9", "1.2", "1.9", "2.1", "3.2">>)  s == Uniform(<<k, "s">>, "0.8", "1.3")  w == Uniform(<<k, "w">>, "-0.4", "0.4")
      T == RFmt(<<CNeg(Uniform(<<k, "T0">>, "6.5", "7.5") \oslash s), Uniform(<<k, "T1">>, "6.5", "7.5") \oslash s>>)
      q == Sech(NParse(T), PickSeq(<<k, "D">>, <<41, 48, 55>>), A, s, Uniform(<<k, "t0">>, "-0.7", "0.7"), w, Uniform(<<k, "phi">>, -3, 3))
      e == SechEigs(A, s, w)
      x == PickSeq(<<k, "off">>, <<"0.03", "0.1", "0.2">>)
      g == Vec([j \in 1..Len(e) |-> e[j] \oplus Cx(Uniform(<<k, j, "x">>, CNeg(x), x), Uniform(<<k, j, "y">>, CNeg(x), x))])
      c == [op |-> "nsev", q |-> NFmt(q), T |-> T, M |-> 0, cs |-> 0, kappa |-> 1, bs |-> 1, o_discretization |-> PickSeq(<<k, "d">>, [j \in 1..28 |-> j - 1]), o_normalization_flag |-> IRand(<<k, "nf">>, 2),
            o_bound_state_localization |-> 1, o_bound_state_filtering |-> PickSeq(<<k, "f">>, <<0, 3>>), o_bounding_box |-> Whole4, K |-> Len(e), init |-> NFmt(g), mode |-> "bs"]
      n(j) == [o_niter |-> j, o_tol |-> PickSeq(<<k, "tol", j>>, Tols)]
  IN <<Hook>> \o Vec([j \in 1..7 |-> With(c, n(j))]) \o <<With(c, [o_niter |-> 15, mode |-> "auto"])>>
PerSess(k) ==
  LET c == NewtonSess(k)[2]
      n(j) == [o_max_evals |-> j, o_tol |-> PickSeq(<<k, "tol", j>>, Tols), mode |-> "per"]
      both == Vec([j \in 1..6 |-> With(c, n(1 + IRand(<<k, "ev", j>>, 12)))])
  IN <<Hook>> \o both \o <<With(both[1], [as |-> 0, M |-> 0]), With(both[2], [ms |-> 0, K |-> 0])>>
InvSess(k) ==
  LET D == PickSeq(<<k, "D">>, <<8, 16, 32>>)  T == RFmt(<<CNeg(Uniform(<<k, "a">>, 1, 6)), Uniform(<<k, "b">>, 1, 6)>>)
      XI == [op |-> "inverse_XI", D |-> D, T |-> T, M |-> D, dis |-> 4]
      a == Uniform(<<k, "amp">>, "0.05", "0.6")
      cs == Vec([j \in 1..D |-> (a \otimes CExp(CNeg(Sq((8 \otimes ((j \ominus (D \oslash 2)) \oslash D)))))) \otimes CExp(I \otimes Uniform(<<k, j, "p">>, "-0.3", "0.3"))])
      h == StepSize(NParse(T), D)  x1 == Pi \oslash (2 \otimes h)
      c == [op |-> "inverse", D |-> D, T |-> T, M |-> D, kappa |-> -1, contspec |-> NFmt(cs), o_discretization |-> 4, o_oversampling_factor |-> 16,
            o_contspec_type |-> 0, o_contspec_inversion_method |-> 2, mode |-> "inv",
            XI |-> RFmt(<<CNeg(x1) \oplus (Pi \oslash (D \otimes h)), x1>>)]
      m == <<1, 2, 3, 4, 5, 7, 10, 15, 25, 60, 300>>
  IN <<Hook>> \o Vec([j \in 1..Len(m) |-> With(c, [o_max_iter |-> m[j]])])
(* guesses that are zeros up to the last digit: nothing is left to refine     *)
ExactSess(k) ==
  LET T == RFmt(<<CNeg(Uniform(<<k, "T0">>, "0.5", "1.5")), Uniform(<<k, "T1">>, "0.5", "1.5")>>)
      c(j) == [op |-> "nsev", q |-> NFmt(Vec([l \in 1..(2 + IRand(<<k, j, "D">>, 5)) |-> Uniform(<<k, j, l, "q">>, 1, 3)])), T |-> T, M |-> 0, cs |-> 0, kappa |-> 1, bs |-> 1, o_discretization |-> 1,
               o_normalization_flag |-> 0, o_bound_state_localization |-> 1, o_bound_state_filtering |-> PickSeq(<<k, j, "f">>, <<0, 3>>), o_bounding_box |-> Whole4, o_niter |-> PickSeq(<<k, j, "n">>, <<1, 2, 10>>),
               o_tol |-> PickSeq(<<k, j, "tol">>, Tols), K |-> 1, init |-> NFmt(<<I \otimes Uniform(<<k, j, "g">>, "0.2", "1.7")>>), polish |-> 1, mode |-> "exact"]
      z == NFmt(<<Num(0)>>)  D == PickSeq(<<k, "Dz">>, <<8, 16, 32>>)
      \* the signal is zero: the trace is 2 and the derivative zero at zero
      p == [op |-> "nsep", q |-> NFmt(Vec([l \in 1..D |-> Num(0)])), T |-> T, kappa |-> PickSeq(<<k, "kap">>, <<-1, 1>>), phase |-> "0", o_discretization |-> PickSeq(<<k, "d">>, Slow), o_localization |-> 1,
            o_filtering |-> 0, o_normalization_flag |-> IRand(<<k, "nf">>, 2), K |-> 1, Kg |-> 1, M |-> 1, init |-> z, inita |-> z, o_points_per_spine |-> 1, o_floquet_range |-> "1 1",
            o_max_evals |-> PickSeq(<<k, "ev">>, <<1, 2, 20>>), o_tol |-> PickSeq(<<k, "tol">>, Tols), mode |-> "exactper"]
  IN <<Hook>> \o Vec([j \in 1..9 |-> c(j)]) \o <<p, With(p, [as |-> 0, M |-> 0]), With(p, [ms |-> 0, K |-> 0])>>
SpecSess(k) ==
  LET n == 2 + IRand(<<k, "n">>, 8)
      \* a monomial has the same absolute value everywhere on the circle
      mono(c) == LET m == 1 + IRand(<<k, "m">>, n) IN NFmt(Vec([j \in 1..n |-> IF j = m THEN c \otimes CExp(I \otimes Uniform(<<k, "arg">>, -3, 3)) ELSE Num(0)]))
      c(kap, v, ill) == [op |-> "specfact", p |-> mono(Num(v)), os |-> PickSeq(<<k, "os">>, <<4, 8, 32>>), kappa |-> kap, mode |-> "spec", ill |-> ill]
      two == RFmt(<<1, -1>>)
  IN <<Hook, c(1, "0.999", 0), c(1, "0.2", 0), c(1, "0.9999999999", 1), c(1, "1.5", 1), c(-1, "1.5", 0), c(-1, "0.3", 0), c(0, "0.01", 0), c(0, "1e-10", 1), c(0, "1e-7", 0),
       With(c(0, 1, 1), [p |-> NFmt(<<Num(1), Num(-1)>>)])>>
Sess(i) == LET k == KeyOf(i) IN CASE i % 7 \in {0, 1, 2} -> BsSess(k) [] i % 7 \in {3, 4} -> PerSess(k) [] i % 7 = 5 -> (IF i % 2 = 0 THEN InvSess(k) ELSE ExactSess(k)) [] OTHER -> SpecSess(k)
(* --------------------------------------------- the iterations, followed *)
(* "yes" (announced), "no" or "?" if rounding may decide                     *)
Vs(x, tol, gap) == IF (gap \otimes tol) \prec x THEN "above" ELSE IF (gap \otimes x) \prec tol THEN "below" ELSE "?"
Both(u, w) == IF "below" \in {u, w} THEN "below" ELSE IF "?" \in {u, w} THEN "?" ELSE "above"
(* the value of a is rescaled by a power of two if normalization is on *)
RECURSIVE BsRun(_, _, _, _, _)
BsRun(pr, x, left, tol, nf) ==
  IF left = 0 THEN "yes"
  ELSE LET f == AOf(pr, x)  s == f \oslash APrime(pr, x)
           v == Both(Vs(CAbs(s), tol, "1.5"), Vs(CAbs(f), tol, IF nf = 1 THEN Num("1e6") ELSE Num("1.5"))) IN
       IF v = "below" THEN "no" ELSE IF v = "?" THEN "?" ELSE BsRun(pr, x \ominus s, left - 1, tol, nf)
Worst(S) == IF "yes" \in S THEN "yes" ELSE IF "?" \in S THEN "?" ELSE "no"
BsWarn(a) ==
  LET pr == NseProblem(Refiner(a.o_discretization), NParse(a.q), NParse(a.T), 1)  g == NParse(a.init)
 IN
  \* with the default tolerance all guesses converge up to rounding
  IF a.mode = "auto" THEN (IF \A j \in 1..Len(g) : BsRun(pr, g[j], 7, Num("1e-9"), 0) = "no" THEN "default" ELSE "?")
  ELSE Worst({BsRun(pr, g[j], a.o_niter, Num(a.o_tol), a.o_normalization_flag) : j \in 1..Len(g)})
Fun(pr, kind, t, y) == IF kind = "main" THEN Trace(MonoOf(pr, y)) \ominus t ELSE MonoOf(pr, y)[1][2]
RECURSIVE MainRun(_, _, _, _, _, _, _, _)
(* n evaluations so far, of at most ev *)
MainRun(pr, t, x, y, n, ev, tol, last) ==
  IF n > ev THEN last
  ELSE LET f(u) == Fun(pr, "main", t, u)
           d == Around(f, x).d1  s == y \oslash d
           x1 == x \ominus s  y1 == f(x1)  x2 == x1 \ominus s  y2 == f(x2)
           w1 == Vs(CAbs(y1), tol, "1.5")
           one == w1 = "below"  dbl == ~one /\ CAbs(y2) \prec CAbs(y1)
           vague == w1 = "?" \/ CAbs(d) \prec "1e-4" \/ (~one /\ CAbs(CAbs(y1) \ominus CAbs(y2)) \preceq ("1e-3" \otimes CAbs(y1)))
           nx == IF dbl THEN x2 ELSE x1  ny == IF dbl THEN y2 ELSE y1  inc == IF dbl THEN 2 \otimes CAbs(s) ELSE CAbs(s)
           v == Both(Vs(inc, tol, "1.5"), Vs(CAbs(y), tol, "1.5")) IN
       IF vague \/ v = "?" \/ "50" \prec CAbs(nx) THEN "?" ELSE IF v = "below" THEN "no"
       ELSE MainRun(pr, t, nx, ny, n + (IF one THEN 1 ELSE 2), ev, tol, "yes")
RECURSIVE AuxRun(_, _, _, _, _)
AuxRun(pr, x, left, tol, nf) ==
  IF left = 0 THEN "yes"
  ELSE LET f(u) == Fun(pr, "aux", 0, u)  A == Around(f, x)  s == A.f \oslash A.d1
           v == Both(Vs(CAbs(s), tol, "1.5"), Vs(CAbs(A.f), tol, IF nf = 1 THEN Num("1e3") ELSE Num("1.5"))) IN
       IF CAbs(A.d1) \prec "1e-4" \/ "50" \prec CAbs(x) THEN "?" ELSE IF v = "below" THEN "no" ELSE IF v = "?" THEN "?" ELSE AuxRun(pr, x \ominus s, left - 1, tol, nf)
PerWarn(a) ==
  LET pr == Whole(a)  rhs == Rhs(a)  g0 == Back(a, a.init)  ga == Back(a, a.inita)  tol == Num(a.o_tol)
      G == Len(g0) \div Len(rhs)
      m(e, j) == LET t == rhs[e]  x == g0[(e - 1) * G + j] IN MainRun(pr, t, x, Fun(pr, "main", t, x), 1, a.o_max_evals, tol, "no") IN
  \* one list of guesses per value of the trace, one for the zeros
  (IF a.ms = 0 THEN <<>> ELSE Vec([e \in 1..Len(rhs) |-> Worst({m(e, j) : j \in 1..G})])) \o
  (IF a.as = 0 THEN <<>> ELSE <<Worst({AuxRun(pr, ga[j], a.o_max_evals, tol, a.o_normalization_flag) : j \in 1..Len(ga)})>>)
(* ------------------------------------------------------------- verdict *)
J(h, a, r) ==
  IF a.op = "sethook" THEN [hook |-> r.got = "A"]
  ELSE IF a.mode = "spec" THEN (IF a.ill = 0 THEN [success |-> r.ret = 0, silent |-> r.warns = 0] ELSE [announced |-> r.ret # 0 \/ r.warns >= 1])
  ELSE IF r.ret # 0 THEN [success |-> FALSE]
  ELSE IF a.mode \in {"bs", "auto"} THEN LET w == BsWarn(a) IN [announced |-> w # "yes" \/ r.warns >= 1, silent |-> w # "no" \/ r.warns = 0, default_reached |-> w # "default" \/ r.warns = 0]
  ELSE IF a.mode = "exact" THEN (IF r.exact = 1 THEN [silent |-> r.warns = 0] ELSE [tried |-> r.exact = 0])
  ELSE IF a.mode = "exactper" THEN [silent |-> r.warns = 0, kept |-> (a.K = 0 \/ CEq(NParse(r.ms)[1], Num(0))) /\ (a.M = 0 \/ CEq(NParse(r.as)[1], Num(0)))]
  ELSE IF a.mode = "per" THEN
    LET w == PerWarn(a)  count(x) == Cardinality({e \in 1..Len(w) : w[e] = x}) IN
    [announced |-> count("yes") <= r.warns, silent |-> r.warns <= Len(w) - count("no")]
  ELSE (* one iteration cannot have converged; once it has, more are not used *)
    LET P == {n \in 2..Len(h) : h[n].r.ret = 0 /\ h[n].r.warns = 0} IN
    [announced |-> a.o_max_iter > 1 \/ r.warns = 1, settled |-> P = {} \/ (r.warns = 0 /\ \A n \in P : r.q = h[n].r.q), default_enough |-> a.o_max_iter < 300 \/ r.warns = 0]
=============================================================================
