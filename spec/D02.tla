-------------------------------- MODULE D02 ---------------------------------
(* KdV bound states, norming constants and residues.                         *)
EXTENDS Flow, Kdv, Signals
N == Tier(448, 3360)
(* A(A+1) s^2 sech^2(s(t-t0)): bound states i s (A-k), k = 0, 1, ... < A     *)
Sech2(T, D, A, s, t0) == LET t == Instants(T, D)  c == (A \otimes (A \oplus 1)) \otimes Sq(s) IN
   Vec([j \in 1..D |-> c \otimes Sq(SechR(s \otimes (t[j] \ominus t0)))])
Sech2Eigs(A, s) == LET n == RFloor(A \oplus "0.9999999") IN Vec([k \in 1..n |-> Cx(0, s \otimes ((A \oplus 1) \ominus k))])
Rough(k, T, D, A, s, t0) == LET u == Sech2(T, D, A, s, t0) IN Vec([j \in 1..D |-> (u[j] \otimes Uniform(<<k, j, "m">>, "0.7", "1.3")) \oplus Uniform(<<k, j, "a">>, "-0.15", "0.15")])
Amps == <<"0.7", "1.4", "2.3", "2.6">>
KeyOf(i) == <<Seed, "D02", i>>
Sess(i) ==
  LET k == KeyOf(i)  d == (i - 1) % 56  sl == KdvBase(d)
      newton == (i \div 56) % 2 = 1   rough == ~newton /\ (i \div 112) % 2 = 1
      D == PickSeq(<<k, "D">>, IF rough THEN <<5, 12, 25, 33>> ELSE <<39, 45, 50, 57>>)
      A == PickSeq(<<k, "A">>, Amps)  s == Uniform(<<k, "s">>, "0.8", "1.2")
      T == RFmt(<<CNeg(Uniform(<<k, "T0">>, "6.5", "7.5") \oslash s), Uniform(<<k, "T1">>, "6.5", "7.5") \oslash s>>)
      t0 == Uniform(<<k, "t0">>, "-0.5", "0.5")
      u == IF rough THEN Rough(k, NParse(T), D, A, s, t0) ELSE Sech2(NParse(T), D, A, s, t0)
      e == Sech2Eigs(A, s)  n == Len(e)
      g == Vec([j \in 1..n |-> e[j] \oplus Cx(0, s \otimes Uniform(<<k, j, "g">>, "-0.05", "0.05"))])
      b == [op |-> "kdvv", q |-> NFmt(u), T |-> T, M |-> 0, cs |-> 0, bs |-> 1, nc |-> 1, o_discretization |-> d, o_discspec_type |-> 2,
            o_normalization_flag |-> IRand(<<k, "nf">>, 2)]
      c == IF newton THEN With(b, [K |-> n, init |-> NFmt(g), o_bound_state_localization |-> 0, o_niter |-> 15])
           ELSE With(b, [K |-> 12, o_bound_state_localization |-> 1, o_niter |-> 20, o_grid_spacing |-> RFmt(<<s \otimes Uniform(<<k, "gs">>, "0.09", "0.35")>>)])
  IN <<c, With(c, [o_discspec_type |-> 0]), With(c, [o_discspec_type |-> 1]), With(c, [o_normalization_flag |-> 1 - c.o_normalization_flag])>>
     \o (IF newton THEN <<With(c, [init |-> NFmt(Reversed(g))]), With(c, [o_niter |-> 0]), With(c, [o_niter |-> 1, M |-> 3, XI |-> "-2.5 1.4", cs |-> 1, o_contspec_type |-> i % 3])>>
         ELSE <<With(c, [M |-> 3, XI |-> "-2.5 1.4", cs |-> 1, o_contspec_type |-> i % 3]),
                With(c, [q |-> NFmt(VScale(-1, u)), M |-> 3, XI |-> "-2.5 1.4", cs |-> IF i % 2 = 0 THEN 1 ELSE 0, mode |-> "defocusing"])>>)
Rel(x, y, tol) == CAbs(x \ominus y) \preceq (tol \otimes CAbs(y))
(* the documented grid: from 0 to the square root of the largest sample (of  *)
(* twice it for the schemes which interpolate more coarsely)                 *)
Pot(pr) == IF Vanilla(pr.d) THEN pr.p.q ELSE pr.p.r
Largest(pr) ==
  LET deriv == KdvName(pr.d) \in {"ES4", "TES4"}
      flat == Fold(LAMBDA acc, x : acc \o (IF deriv THEN <<x[1]>> ELSE x), <<>>, Pot(pr))
      mx == Fold(LAMBDA m, x : RMax(m, CRe(x)), Num(0), flat)
  IN IF Up(KdvBase(pr.d)) >= 3 THEN 2 \otimes mx ELSE mx
GridOf(pr, spacing) ==
  LET top == CSqrt(Largest(pr))  M == LET x == top \oslash spacing  f == RFloor(x) IN 1 + (IF CEq(f, x) THEN f ELSE f + 1) IN
  IF M < 2 THEN <<>> ELSE Vec([j \in 1..M |-> IF j = 1 THEN Num("1e-9") ELSE ((j - 1) \otimes top) \oslash (M - 1)])
ReA(pr, x) == CRe(KdvA(pr, I \otimes x))
KStep(pr, x) == LET a == KdvA(pr, x)  p == KdvAPrime(pr, x) IN CRe(a) \oslash Cx(0, CIm(p))
RECURSIVE Iter(_, _, _)
Iter(pr, x, n) == IF n = 0 THEN x ELSE Iter(pr, x \ominus KStep(pr, x), n - 1)
J(h, a, r) ==
  LET sd == KdvRefiner(a.o_discretization)
      pr == KdvProblem(a.o_discretization, NParse(a.q), NParse(a.T))   \* as preprocessed for the discretization
      prs == [pr EXCEPT !.d = sd]                                      \* and handed to its slow counterpart
  IN IF r.ret # 0 THEN [success |-> FALSE] ELSE
  LET bs == NParse(r.bs)  nc == NParse(r.nc)  K == r.Kout  ty == a.o_discspec_type
      lay == [length |-> Len(bs) = K /\ Len(nc) = (IF ty = 2 THEN 2 ELSE 1)*K]
      iters == Get(a, "o_niter", 10)
  IN IF Has(a, "mode") THEN [count |-> (CEq(Largest(prs), 0) => K = 0)]
  ELSE
  LET first == h[1].r
      grid == a.o_bound_state_localization = 1
      g == IF grid /\ Len(h) = 0 THEN LET x == GridOf(pr, NParse(a.o_grid_spacing)[1]) IN x ELSE <<>>
      v == Vec([j \in 1..Len(g) |-> ReA(prs, g[j])])
      ambiguous == \E j \in 1..Len(v) : CAbs(v[j]) \preceq "1e-7"
      flips == {j \in 2..Len(v) : (0 \prec v[j] /\ v[j-1] \prec 0) \/ (v[j] \prec 0 /\ 0 \prec v[j-1])}
      rough == Len(NParse(a.q)) < 39
      zero(x) == CAbs(KStep(prs, x)) \preceq "1e-8"
      \* complex coefficients make a and b real up to the accuracy of the scheme only; the real part is used
      exact == KdvName(a.o_discretization) \notin {"CF5_3", "CF6_4"}
      tol == IF exact THEN Num("1e-5") ELSE Num("1e-3")
      b(j) == KdvNormConst(prs, bs[j])
      hb(j) == b(j).err \preceq "1e-6"      \* away from a zero (iterations not finished) b is not defined this way
      isB(j) == ~hb(j) \/ ty = 1 \/ Rel(nc[j], b(j).b, tol)
      isR(j) == ~hb(j) \/ ty = 0 \/ Rel(IF ty = 1 THEN nc[j] ELSE nc[K + j], b(j).b \oslash KdvAPrime(prs, bs[j]), tol)
      fb == NParse(first.bs)  fn == NParse(first.nc)
      part == CASE ty = 0 -> Part(fn, 1, first.Kout) [] ty = 1 -> Part(fn, 2, first.Kout) [] OTHER -> fn
      gu == NParse(a.init)
  IN lay @@ [imaginary |-> \A j \in 1..K : CEq(CRe(bs[j]), 0),
      norming_constants |-> \A j \in 1..K : isB(j),
      residues |-> \A j \in 1..K : isR(j)] @@
     (IF grid THEN
        [count |-> Len(h) > 0 \/ ambiguous \/ K = Cardinality(flips),
         \* Newton's method is only certain to converge for resolved signals
         zeros |-> rough \/ \A j \in 1..K : zero(bs[j]),
         bracketed |-> rough \/ Len(h) > 0 \/ ambiguous \/ \A f \in flips : \E m \in 1..K :
              LET x == CIm(bs[m]) w == g[f] \ominus g[f-1] IN (g[f-1] \ominus w) \preceq x /\ x \preceq (g[f] \oplus w),
         alone |-> Len(h) = 0 \/ first.ret # 0 \/ (K = first.Kout /\ VDist(bs, fb) \preceq "1e-7"
                    /\ \A j \in 1..Len(part) : ~hb(((j - 1) % K) + 1) \/ Rel(nc[j], part[j], "1e-5"))]
      ELSE
        [count |-> K = a.K,
         zeros |-> iters < 10 \/ \A j \in 1..K : zero(bs[j]) /\ CAbs(bs[j] \ominus gu[j]) \preceq "0.2",
         iterations |-> iters > 1 \/ \A j \in 1..K : Near(bs[j], Iter(prs, gu[j], iters), "1e-6")])
=============================================================================
