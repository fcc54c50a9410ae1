-------------------------------- MODULE J01 ---------------------------------
(* Scattering matrices of the exponential schemes, their derivatives, and    *)
(* the scattering data computed point by point.                              *)
EXTENDS Flow, Nse, Kdv, Manakov, Signals
N == Tier(960, 9600)
KeyOf(i) == <<Seed, "J01", i>>
SlowIds == <<1, 22, 23, 24, 25, 26, 27>>      \* BO CF4_2 CF4_3 CF5_3 CF6_4 ES4 TES4
Real(q) == Vec([j \in 1..Len(q) |-> CRe(q[j])])
Rand(k, n) == Vec([j \in 1..n |-> Cx(Uniform(<<k, j, "r">>, -1, 1), Uniform(<<k, j, "i">>, -1, 1))])
Flat(gs) == Fold(LAMBDA acc, g : acc \o g, <<>>, gs)
(* spectral points: real, complex in both half planes, bounded growth over the window *)
Points(k, h, D, n) == Vec([j \in 1..n |->
  LET re == Uniform(<<k, j, "x">>, -2, 2) \oslash h
      im == CASE IRand(<<k, j, "t">>, 3) = 0 -> Num(0) [] OTHER -> Uniform(<<k, j, "y">>, -6, 6) \oslash (h \otimes D)
  IN Cx(CASE IRand(<<k, j, "u">>, 8) = 0 -> Num(0) [] OTHER -> re, im)])
AwayFromZero(l, h) == Vec([j \in 1..Len(l) |-> IF CAbs(l[j]) \prec ("0.05" \oslash h) THEN l[j] \oplus ("0.1" \oslash h) ELSE l[j]])
(* the power of two next to 1/h *)
TwoTo(h) == CPow(2, RRound(CRe(CLog(1 \oslash h)) \oslash CRe(CLog(2))))
(* The standard KdV schemes are called with the potential first and exchange the two themselves. *)
Swapped(kdv, dis) == kdv /\ dis >= 28
MatSess(k, i) ==
  LET kdv == IRand(<<k, "pde">>, 2) = 0
      b == SlowIds[1 + ((i \div 3) % 7)]
      dis == IF kdv THEN b + 28*IRand(<<k, "std">>, 2) ELSE b
      D == 3 + IRand(<<k, "D">>, 10)  h == RPow(10, Uniform(<<k, "h">>, -2, "0.3"))
      kap == PickSeq(<<k, "kap">>, <<1, -1>>)
      sz == Uniform(<<k, "s">>, "0.1", 2) \oslash (IF kdv THEN Sq(h) ELSE h)
      zero == IRand(<<k, "zero">>, 12) = 0
      (* coinciding eigenvalues of a step: l^2 + q r = 0 *)
      dg == IRand(<<k, "dg">>, 5) = 0  dc == TwoTo(h)
      low == IF kdv THEN IRand(<<k, "dgl">>, 2) = 0 ELSE kap = -1      \* on the real axis
      q0 == IF dg THEN Vec([j \in 1..D |-> IF kdv THEN (IF low THEN Num(-1) ELSE Num(1)) \otimes Sq(dc) ELSE Cx(dc, 0)])
            ELSE VScale(IF zero THEN Num(0) ELSE sz, Rand(k, D))
      p == IF kdv THEN KdvPrep(dis, D, Real(q0), h) ELSE NsePrep(dis, D, q0, h, kap)
      l1 == Points(k, h, D, 4)
      l0 == IF dg THEN Vec(<<IF low THEN Cx(dc, 0) ELSE Cx(0, dc)>> \o SubSeq(l1, 2, 4)) ELSE l1
      l == IF kdv THEN AwayFromZero(l0, h) ELSE l0
      c == [op |-> "scatmat", pde |-> IF kdv THEN "kdv" ELSE "nse", dis |-> dis,
            q |-> NFmt(Flat(IF Swapped(kdv, dis) THEN p.r ELSE p.q)), r |-> NFmt(Flat(IF Swapped(kdv, dis) THEN p.q ELSE p.r)), lam |-> NFmt(l),
            eps |-> RFmt(<<h>>), kappa |-> IF kdv THEN 1 ELSE kap, deriv |-> 0, norm |-> 0, up |-> Up(b)]
  IN <<c, With(c, [deriv |-> 1]), With(c, [deriv |-> 1, norm |-> 1]), With(c, [norm |-> 1])>>
(* a and its derivative at arbitrary points: scattering data refer to the window *)
BsSess(k, i) ==
  LET s == MatSess(k, i)[1]  n == Len(NParse(s.q)) \div s.up
      h == NParse(s.eps)[1]
      t0 == Uniform(<<k, "T0">>, -1, 1)
      T == <<t0, t0 \oplus (h \otimes (n - 1))>>
      up == Vec([j \in 1..Len(NParse(s.lam)) |-> LET z == NParse(s.lam)[j] IN Cx(IF s.pde = "kdv" THEN Num(0) ELSE CRe(z), CAbs(CIm(z)) \oplus ("0.01" \oslash (h \otimes n)))])
      c == [op |-> "scatbs", pde |-> s.pde, dis |-> s.dis, q |-> s.q, r |-> s.r, lam |-> NFmt(up), T |-> RFmt(T), norm |-> 0, skipb |-> 1, up |-> s.up, eps |-> s.eps]
  IN <<c, With(c, [norm |-> 1]), With(c, [skipb |-> 0])>>
ManSess(k) ==
  LET dis == PickSeq(<<k, "dis">>, <<11, 12>>)  D == 2 + IRand(<<k, "D">>, 10)  h == RPow(10, Uniform(<<k, "h">>, -2, "0.3"))
      sz == Uniform(<<k, "s">>, "0.1", "1.4") \oslash h
      dg == IRand(<<k, "dg">>, 3) = 0  dc == TwoTo(h)  kap == PickSeq(<<k, "kap">>, <<1, -1>>)
      cst(v) == Vec([j \in 1..(ManUp(dis)*D) |-> Cx(v, 0)])
      q == IF dg THEN cst(dc) ELSE VScale(sz, Rand(<<k, 1>>, ManUp(dis)*D))
      q2 == IF dg THEN cst(0) ELSE VScale(sz, Rand(<<k, 2>>, ManUp(dis)*D))
      l == Points(k, h, D, 3)
  IN <<[op |-> "mscatmat", dis |-> dis, q |-> NFmt(q), q2 |-> NFmt(q2), 
       lam |-> NFmt(IF dg THEN Vec(<<IF kap = -1 THEN Cx(dc, 0) ELSE Cx(0, dc)>> \o SubSeq(l, 2, 3)) ELSE l), eps |-> RFmt(<<h>>), kappa |-> kap]>>
Sess(i) == LET k == KeyOf(i) IN IF i % 12 = 2 THEN ManSess(k) ELSE IF i % 3 = 0 THEN BsSess(k, i) ELSE MatSess(k, i)
(* ------------------------------------------------------------- verdict *)
Groups(u, n) == Vec([j \in 1..(Len(u) \div n) |-> Part(u, j, n)])
Problem(a) ==
  LET h == NParse(a.eps)[1]  x == Groups(NParse(a.q), a.up)  y == Groups(NParse(a.r), a.up)
      sw == Swapped(a.pde = "kdv", a.dis)  q == IF sw THEN y ELSE x  r == IF sw THEN x ELSE y IN
  [d |-> a.dis, h |-> h, p |-> [q |-> q, r |-> r]]
MatAt(a, pr, z) == IF a.pde = "kdv" THEN KdvMono(pr, z) ELSE MonoOf(pr, z)
Entries(m) == Vec(Fold(LAMBDA acc, row : acc \o row, <<>>, m))
(* derivative by Cauchy's formula on a small circle: the entries are analytic there *)
Around(f(_), z, rad) == LET w(j) == CExp((I \otimes (2 \otimes Pi)) \otimes (j \oslash 8))
                            t(j) == VScale(1 \oslash (w(j) \otimes (8 \otimes rad)), f(z \oplus (rad \otimes w(j))))
                        IN Fold(LAMBDA acc, j : VAdd(acc, t(j)), t(0), <<1, 2, 3, 4, 5, 6, 7>>)
Radius(a, pr, z) == LET n == Len(pr.p.q)  x == "0.05" \oslash (n \otimes pr.h) IN IF a.pde = "kdv" THEN RMin(x, "0.05" \otimes CAbs(z)) ELSE x
MatJ(a, r) ==
  LET pr == Problem(a)  l == NParse(a.lam)  w == IF a.deriv = 1 THEN 8 ELSE 4
      res == NParse(r.res)  W == NParse(r.W)
      of(j) == VScale(CPow(2, RRound(CRe(W[j]))), Part(res, j, w))
      x == Vec([j \in 1..Len(l) |-> Entries(MatAt(a, pr, l[j]))])
      got == Vec([j \in 1..Len(l) |-> of(j)])
      f(z) == Entries(MatAt(a, pr, z))
      dx == IF a.deriv = 0 THEN <<>> ELSE Vec([j \in 1..Len(l) |-> Around(f, l[j], Radius(a, pr, l[j]))])
      (* rounding is relative to the size the products reach *)
      size(j) == RMax(1, VMaxAbs(x[j]))
      det(m) == (m[1] \otimes m[4]) \ominus (m[2] \otimes m[3])
  IN [guard |-> r.guard = 1, length |-> Len(res) = w*Len(l),
      entries |-> \A j \in 1..Len(l) : VDist(SubSeq(got[j], 1, 4), x[j]) \preceq ("1e-10" \otimes size(j)),
      determinant |-> \A j \in 1..Len(l) : CAbs(det(got[j]) \ominus 1) \preceq ("1e-11" \otimes Sq(size(j))),
      derivative |-> a.deriv = 0 \/ \A j \in 1..Len(l) : VDist(SubSeq(got[j], 5, 8), dx[j]) \preceq (("1e-8" \otimes size(j)) \otimes (RMax(1, VMaxAbs(dx[j])) \oplus (1 \oslash Radius(a, pr, l[j])))),
      unscaled |-> a.norm = 1 \/ VMaxAbs(W) \preceq 0]
BsJ(a, r) ==
  LET pr0 == Problem(a)  l == NParse(a.lam)  T == NParse(a.T)
      pr == With(pr0, [lo |-> T[1] \ominus (pr0.h \oslash 2), hi |-> T[2] \oplus (pr0.h \oslash 2)])
      W == NParse(r.W)  sc(j) == CPow(2, RRound(CRe(W[j])))
      av == NParse(r.a)  ap == NParse(r.ap)
      (* KdV: on the imaginary axis, where a is real *)
      f(z) == IF a.pde = "kdv" THEN KdvA(pr, z) ELSE AOf(pr, z)
      pick(v, re) == IF a.pde # "kdv" THEN v ELSE IF re THEN Cx(CRe(v), 0) ELSE Cx(0, CIm(v))
      size(j) == LET m == MatAt(a, pr, l[j]) IN RMax(1, VMaxAbs(Entries(m)) \otimes CAbs(CExp((I \otimes l[j]) \otimes (pr.hi \ominus pr.lo))))
      d(j) == Around(LAMBDA z : <<f(z)>>, l[j], Radius(a, pr, l[j]))[1]
  IN [guard |-> r.guard = 1,
      a |-> \A j \in 1..Len(l) : CAbs((av[j] \otimes sc(j)) \ominus pick(f(l[j]), TRUE)) \preceq ("1e-9" \otimes size(j)),
      aprime |-> \A j \in 1..Len(l) : CAbs((ap[j] \otimes sc(j)) \ominus pick(d(j), FALSE)) \preceq (("1e-7" \otimes size(j)) \otimes (RMax(1, CAbs(d(j))) \oplus (1 \oslash Radius(a, pr, l[j]))))]
ManJ(a, r) ==
  LET n == ManUp(a.dis)  h == NParse(a.eps)[1]  x == NParse(a.q)  y == NParse(a.q2)  l == NParse(a.lam)
      pr == [d |-> a.dis, h |-> h, kap |-> a.kappa, x |-> Groups(VScale(n, x), n), y |-> Groups(VScale(n, y), n)]
      res == NParse(r.res)
      m(j) == Entries(Mono3(pr, l[j]))
  IN [guard |-> r.guard = 1, entries |-> \A j \in 1..Len(l) : LET e == m(j) IN VDist(Part(res, j, 9), e) \preceq ("1e-10" \otimes RMax(1, VMaxAbs(e)))]
J(h, a, r) == IF r.ret # 0 THEN [success |-> FALSE] ELSE
  CASE a.op = "scatmat" -> MatJ(a, r) [] a.op = "scatbs" -> BsJ(a, r) [] OTHER -> ManJ(a, r)
=============================================================================
