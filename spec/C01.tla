-------------------------------- MODULE C01 ---------------------------------
(* Main and auxiliary spectra of (quasi-)periodic signals of the nonlinear   *)
(* Schroedinger equation: the points where the trace of the monodromy matrix *)
(* over one period is twice a prescribed value (-1 and 1 for the main        *)
(* spectrum), and those where its upper right element vanishes.              *)
EXTENDS Flow, Floquet
N == Tier(480, 6000)
KeyOf(i) == <<Seed, "C01", i>>
Sess(i) == LET k == KeyOf(i) IN CASE i % 4 = 0 -> GridSess(k) [] i % 4 = 1 -> AllSess(k) [] i % 4 = 2 -> MixedSess(k) [] i % 4 = 3 -> NewtonSess(k)
(* ---------------------------------------------------------- grid search *)
GridJ(a, r) ==
  LET pr == Whole(a)  g == GridStep(a, pr)  ms == Back(a, Str(r, "ms"))  as == Back(a, Str(r, "as"))  two == <<Num(-2), Num(2)>>
      b == Grow(BoxOf(a, pr.h), "1e-9")
      (* a coarser grid on which no zero can be missed *)
      lo == g.lo \oplus (4 \otimes g.st)  hi == g.hi \ominus (4 \otimes g.st)
      cell == RMax(8 \otimes g.st, (hi \ominus lo) \oslash 60)
      n == RFloor((hi \ominus lo) \oslash cell)
      x == Vec([j \in 1..n |-> lo \oplus (cell \otimes (j - 1))])
      v == Vec([j \in 1..n |-> CRe(Trace(MonoOf(pr, x[j])))])
      \* values far enough from the threshold that a zero next to them cannot be confused with them
      far(y) == "0.1" \preceq CAbs(y)
      flips(j, t) == LET y == v[j] \ominus t  z == v[j+1] \ominus t IN far(y) /\ far(z) /\ ((y \prec 0) # (z \prec 0))
      between(j) == \E m \in 1..Len(ms) : (x[j] \ominus g.st) \preceq CRe(ms[m]) /\ CRe(ms[m]) \preceq (x[j+1] \oplus g.st)
  IN [mainInside |-> \A j \in 1..Len(ms) : Inside(b, ms[j]), auxInside |-> \A j \in 1..Len(as) : Inside(b, as[j]),
      nearlyReal |-> (\A j \in 1..Len(ms) : CAbs(CIm(ms[j])) \preceq (2 \otimes g.st)) /\ (\A j \in 1..Len(as) : CAbs(CIm(as[j])) \preceq (2 \otimes g.st)),
      main |-> \A j \in 1..Len(ms) : IsMain(pr, two, ms[j], g.st, "1e-10"),
      aux |-> \A j \in 1..Len(as) : IsAux(pr, as[j], g.st, "1e-10"),
      complete |-> a.ms = 0 \/ \A j \in 1..(n - 1) : (flips(j, two[1]) \/ flips(j, two[2])) => between(j)]
(* -------------------------------------- all zeros, filtered and refined *)
(* products over all zeros agree with ratios of the polynomial               *)
AllJ(a, r) ==
  LET pr == Coarse(a)  ms == Back(a, Str(r, "ms"))  as0 == Back(a, Str(r, "as"))  rhs == Rhs(a)  D == Len(pr.p.q)  dg == DegOf(pr.d)  n == dg*D
      mc == ((2 \oslash dg) \otimes pr.h)
      \* zeros of the polynomial at the origin and at infinity, up to rounding, are no points of the spectrum
      as == SelectSeq(as0, LAMBDA y : CAbs(CIm(y) \otimes mc) \preceq 14)
      z(y) == CExp((I \otimes y) \otimes mc)
      prod(u, y1, y2) == LET z1 == z(y1) z2 == z(y2) IN Fold(LAMBDA acc, y : acc \otimes ((z1 \ominus z(y)) \oslash (z2 \ominus z(y))), Num(1), u)
      (* the polynomial is the function times the exponential of the center of its powers *)
      cen(y) == CExp((I \otimes y) \otimes ((mc \otimes n) \oslash 2))
      pm(t, y) == (Trace(MonoOf(pr, y)) \ominus t) \otimes cen(y)
      same(u, p1, p2, y1, y2) == LET w == p1 \oslash p2 IN CAbs(prod(u, y1, y2) \ominus w) \preceq ("1e-5" \otimes RMax(1, CAbs(w)))
      w == 1 \oslash mc
      y1 == w \otimes Cx("0.43", "0.05")  y2 == w \otimes Cx("-0.71", "0.02")  y3 == w \otimes Cx("1.6", "-0.04")
      grp(j) == SubSeq(ms, (j - 1)*n + 1, j*n)
  IN [mainCount |-> Len(ms) = n*Len(rhs),
      main |-> Len(ms) # n*Len(rhs) \/ \A j \in 1..Len(rhs) : same(grp(j), pm(rhs[j], y1), pm(rhs[j], y2), y1, y2) /\ same(grp(j), pm(rhs[j], y3), pm(rhs[j], y2), y3, y2)]
     @@ (LET au(y) == MonoOf(pr, y)[1][2]  m == Len(as)
             \* zeros at the origin and at infinity are left out: the polynomial is z^s times the product
             q2(u1, u2) == (au(u1) \oslash au(u2)) \oslash prod(as, u1, u2)
             e(s, u1, u2) == CExp((I \otimes (u1 \ominus u2)) \otimes (mc \otimes (s \oslash 2)))
             fits(s) == CAbs((q2(y1, y2) \otimes e(s, y1, y2)) \ominus 1) \preceq "1e-5" /\ CAbs((q2(y3, y2) \otimes e(s, y3, y2)) \ominus 1) \preceq "1e-5"
         IN [aux |-> Len(as0) <= n /\ \E s \in (-2*n)..(2*n) : fits(s)])
(* points of the unfiltered call inside the box are those of the filtered one *)
FilteredJ(h, a, r) ==
  LET f == h[1].r IN IF f.ret # 0 THEN [reference |-> FALSE] ELSE
  LET pr == Coarse(a)  b == BoxOf(a, pr.h)  e == Num("1e-7")
      ok(u, all) == /\ \A j \in 1..Len(u) : Inside(Grow(b, "1e-9"), u[j])
                    /\ Subset(u, all, "1e-6")
                    /\ \A j \in 1..Len(all) : Inside(Grow(b, CNeg(e)), all[j]) => VNearest(u, all[j]) \preceq "1e-6"
      cnt(u, all) == LET in1 == Cardinality({j \in 1..Len(all) : Inside(Grow(b, CNeg(e)), all[j])})  in2 == Cardinality({j \in 1..Len(all) : Inside(Grow(b, e), all[j])}) IN in1 <= Len(u) /\ Len(u) <= in2
      ms == Back(a, Str(r, "ms"))  as == Back(a, Str(r, "as"))  fm == Back(a, f.ms)  fa == Back(a, f.as)
  IN [main |-> ok(ms, fm), aux |-> ok(as, fa), mainCount |-> cnt(ms, fm), auxCount |-> cnt(as, fa)]
(* Newton's method from a good guess stays there: with step s and curvature  *)
(* |f''/f'| s small, a zero lies within 2|s|                                  *)
Secure(t) == "1e-6" \prec CAbs(t.d1) /\ ((CAbs(t.f) \otimes CAbs(t.d2)) \preceq ("0.02" \otimes Sq(CAbs(t.d1))))
RefinedJ(h, a, r) ==
  LET pr == Base(a)  co == Coarse(a)  b == BoxOf(a, co.h)  rhs == Rhs(a)  ms == Back(a, Str(r, "ms"))  as == Back(a, Str(r, "as"))
      ref == Get(a, "o_max_evals", 50) > 0
      t0 == Num("1e-6")
      first == h[Len(h)]
      startM == IF first.a.op = "nsep" /\ first.a.mode = "filtered" THEN h[2].r ELSE With(r, [ret |-> 1])
      inner == Grow(b, "-0.02")
      (* every guess which is certain to converge leads to a point *)
      sure(x, t, all) == ~Secure(t) \/ LET s == CAbs(t.f \oslash t.d1) IN ~(s \preceq "0.2") \/ ~Inside(Grow(b, CNeg(4 \otimes s) \ominus "0.01"), x)
                          \/ VNearest(all, x \ominus (t.f \oslash t.d1)) \preceq (s \oplus "1e-5")
      g1(y) == Trace(MonoOf(pr, y))  g2(y) == MonoOf(pr, y)[1][2]
  IN [mainInside |-> \A j \in 1..Len(ms) : Inside(Grow(b, "1e-9"), ms[j]), auxInside |-> \A j \in 1..Len(as) : Inside(Grow(b, "1e-9"), as[j])] @@
     (IF ~ref THEN [unrefined |-> (\A j \in 1..Len(ms) : j > 6 \/ IsMain(co, rhs, ms[j], "1e-4", "1e-6")) /\ (\A j \in 1..Len(as) : j > 6 \/ IsAux(co, as[j], "1e-4", "1e-6"))]
      ELSE [main |-> r.warns > 0 \/ \A j \in 1..Len(ms) : IsMain(pr, rhs, ms[j], t0, "1e-7"),
            aux |-> r.warns > 0 \/ \A j \in 1..Len(as) : IsAux(pr, as[j], t0, "1e-7")]) @@
     (IF ~ref \/ startM.ret # 0 THEN <<>>
      ELSE LET u == Back(a, startM.ms)  w == Back(a, startM.as) IN
        [mainKept |-> \A j \in 1..Len(u) : \E m \in 1..Len(rhs) : LET t == Around(g1, u[j]) IN sure(u[j], With(t, [f |-> t.f \ominus rhs[m]]), ms),
         auxKept |-> \A j \in 1..Len(w) : sure(w[j], Around(g2, w[j]), as)])
(* ---------------------------------------------------------------- mixed *)
MixedJ(h, a, r) ==
  LET s == h[2].r  g == h[3].r IN IF s.ret # 0 \/ g.ret # 0 THEN [reference |-> FALSE] ELSE
  LET co == Coarse(a)  b == BoxOf(a, co.h)  D == Len(NParse(a.q))
      tol == (b[4] \ominus b[3]) \oslash (32*(D - 1))
      nonreal(u) == SelectSeq(u, LAMBDA y : tol \prec CAbs(CIm(y)))
      sm == IF a.kappa = 1 THEN nonreal(Back(a, s.ms)) ELSE <<>>  sa == nonreal(Back(a, s.as))
      gm == Back(a, g.ms)  ga == Back(a, g.as)  ms == Back(a, Str(r, "ms"))  as == Back(a, Str(r, "as"))
      split(u, w) == IF Len(u) < Len(w) THEN [ok |-> FALSE] ELSE [ok |-> VDist(SubSeq(u, Len(u) - Len(w) + 1, Len(u)), w) \preceq "1e-9", rest |-> SubSeq(u, 1, Len(u) - Len(w))]
      xm == split(ms, gm)  xa == split(as, ga)
      e == Num("1e-5")  clearly(u) == SelectSeq(u, LAMBDA y : (tol \oplus "1e-6") \prec CAbs(CIm(y)))
  IN [mainReal |-> xm.ok, auxReal |-> xa.ok,
      main |-> ~xm.ok \/ (Subset(xm.rest, Back(a, s.ms), e) /\ (a.kappa = -1 => xm.rest = <<>>) /\ \A j \in 1..Len(xm.rest) : (tol \ominus "1e-6") \prec CAbs(CIm(xm.rest[j]))),
      aux |-> ~xa.ok \/ (Subset(xa.rest, Back(a, s.as), e) /\ \A j \in 1..Len(xa.rest) : (tol \ominus "1e-6") \prec CAbs(CIm(xa.rest[j]))),
      \* without refinement nothing else can happen to a point
      complete |-> a.o_max_evals > 0 \/ ~xm.ok \/ ~xa.ok \/ (Subset(clearly(sm), xm.rest, e) /\ Subset(clearly(sa), xa.rest, e))]
(* --------------------------------------------------------------- newton *)
NewtonJ(h, a, r) ==
  LET pr == Whole(a)  rhs == Rhs(a)  ms == Back(a, Str(r, "ms"))  as == Back(a, Str(r, "as"))  g0 == Back(a, a.init)  ga == Back(a, a.inita)
      n == Len(rhs)  Kg == a.Kg  ev == a.o_max_evals  b == BoxOf(a, pr.h)
      of(j) == rhs[((j - 1) \div Kg) + 1]
      f1(y) == Trace(MonoOf(pr, y))  f2(y) == MonoOf(pr, y)[1][2]
      ab(y, t) == CAbs(f1(y) \ominus t)
      (* one evaluation: a step for a simple zero or twice as long one for a double zero, whichever is better *)
      one(x, t) == LET A == Around(f1, x)  s == (A.f \ominus t) \oslash A.d1  u1 == x \ominus s  u2 == x \ominus (2 \otimes s) IN
        IF ab(u2, t) \prec ab(u1, t) THEN u2 ELSE u1
      oneA(x) == LET A == Around(f2, x) IN x \ominus (A.f \oslash A.d1)
      first == IF Len(h) > 1 THEN h[2].r ELSE r
      keep(u) == SelectSeq(u, LAMBDA y : Inside(b, y))
      edge(u) == \E j \in 1..Len(u) : Inside(Grow(b, "1e-7"), u[j]) /\ ~Inside(Grow(b, "-1e-7"), u[j])
  IN IF a.o_filtering # 0
     THEN [mainInside |-> \A j \in 1..Len(ms) : Inside(Grow(b, "1e-9"), ms[j]), auxInside |-> \A j \in 1..Len(as) : Inside(Grow(b, "1e-9"), as[j]),
           main |-> r.warns > 0 \/ \A j \in 1..Len(ms) : IsMain(pr, rhs, ms[j], "1e-6", "1e-7"),
           aux |-> r.warns > 0 \/ \A j \in 1..Len(as) : IsAux(pr, as[j], "1e-6", "1e-7")]
     ELSE IF ev = 0 THEN [main |-> a.ms = 0 \/ VDist(ms, g0) \preceq "1e-12", aux |-> a.as = 0 \/ VDist(as, ga) \preceq "1e-12"]
     ELSE IF ev = 1 THEN
       [main |-> \A j \in 1..Len(ms) : CAbs(ms[j] \ominus one(g0[j], of(j))) \preceq ("1e-5" \otimes RMax(1, CAbs(ms[j])))
                   \/ LET A == Around(f1, g0[j]) s == (A.f \ominus of(j)) \oslash A.d1 IN CAbs(ab(g0[j] \ominus s, of(j)) \ominus ab(g0[j] \ominus (2 \otimes s), of(j))) \preceq "1e-5",
        aux |-> \A j \in 1..Len(as) : CAbs(as[j] \ominus oneA(ga[j])) \preceq ("1e-5" \otimes RMax(1, CAbs(as[j])))]
     ELSE [mainCount |-> a.ms = 0 \/ Len(ms) = n*Kg, auxCount |-> a.as = 0 \/ Len(as) = a.M,
           main |-> r.warns > 0 \/ \A j \in 1..Len(ms) : IsMain(pr, <<of(j)>>, ms[j], "1e-6", "1e-7"),
           aux |-> r.warns > 0 \/ \A j \in 1..Len(as) : IsAux(pr, as[j], "1e-6", "1e-7"),
           alone |-> Len(h) <= 1 \/ first.ret # 0 \/ ((a.ms = 0 \/ r.ms = Str(first, "ms")) /\ (a.as = 0 \/ r.as = Str(first, "as")))]
J(h, a, r) ==
  IF a.op = "sethook" THEN [hook |-> r.got = "A"]
  ELSE IF r.ret # 0 THEN [success |-> a.mode = "grid" /\ LET g == GridStep(a, Whole(a)) IN g.hi \preceq g.lo]   \* the box is beyond the range that can be resolved
  ELSE [counts |-> (a.ms = 0 \/ Len(Num2(Str(r, "ms"))) = r.Kout) /\ (a.as = 0 \/ Len(Num2(Str(r, "as"))) = r.Mout)] @@
       (CASE a.mode = "grid" -> GridJ(a, r) [] a.mode = "all" -> AllJ(a, r) [] a.mode = "filtered" -> FilteredJ(SubSeq(h, 2, Len(h)), a, r)
          [] a.mode = "refined" -> RefinedJ(h, a, r) [] a.mode = "mixed" -> MixedJ(h, a, r) [] a.mode = "newton" -> NewtonJ(h, a, r))
=============================================================================
