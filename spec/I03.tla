-------------------------------- MODULE I03 ---------------------------------
(* Error measures, norms and elementary functions equal their definitions.   *)
EXTENDS Flow, Num
N == Tier(1500, 12000)
KeyOf(i) == <<Seed, "I03", i>>
Rand(k, n, s) == Vec([j \in 1..n |-> s \otimes Cx(Uniform(<<k, j, "r">>, -1, 1), Uniform(<<k, j, "i">>, -1, 1))])
Size(k) == RPow(10, Uniform(<<k, "size">>, IF IRand(<<k, "wide">>, 3) = 0 THEN -200 ELSE -3, IF IRand(<<k, "wide">>, 3) = 0 THEN 200 ELSE 3))
(* arguments around zero down to 1e-12, around one, and large *)
Arg(k) == LET m == RPow(10, Uniform(<<k, "m">>, CASE IRand(<<k, "c">>, 3) = 0 -> -12 [] OTHER -> "-0.6", "0.8"))  ph == Uniform(<<k, "ph">>, -4, 4) IN
  CASE IRand(<<k, "zero">>, 20) = 0 -> Num(0) [] IRand(<<k, "axis">>, 4) = 0 -> m [] IRand(<<k, "axis">>, 4) = 1 -> I \otimes m [] OTHER -> m \otimes CExp(I \otimes ph)
Fs == <<"rel_err", "hausdorff", "l2norm2", "sech", "nextpow2", "legendre", "csinc", "csinc_d", "normalize">>
Sess(i) ==
  LET k == KeyOf(i)  f == Fs[1 + (i % 9)]  n == 1 + IRand(<<k, "n">>, 12)  m == 1 + IRand(<<k, "m">>, 12)  s == Size(k)
      b == Rand(<<k, 2>>, m, s)
      (* the second set shares points with the first now and then *)
      a == LET x == Rand(<<k, 1>>, n, s) IN Vec([j \in 1..n |-> IF IRand(<<k, j, "share">>, 2) = 0 THEN b[1 + (j % m)] ELSE x[j]])
      lo == Uniform(<<k, "lo">>, -5, 5)
      c == [op |-> "small", f |-> f] IN
  << CASE f = "rel_err" -> With(c, [u |-> NFmt(Rand(<<k, 1>>, m, s)), v |-> NFmt(b)])
       [] f = "hausdorff" -> With(c, [u |-> NFmt(a), v |-> NFmt(b)])
       [] f = "l2norm2" -> LET x == RMin(RMax(s, "1e-100"), "1e100") IN With(c, [u |-> NFmt(Rand(<<k, 1>>, n, x)), x |-> RFmt(<<lo>>), y |-> RFmt(<<CASE IRand(<<k, "bad">>, 6) = 0 -> lo [] IRand(<<k, "bad">>, 6) = 1 -> lo \ominus 1 [] OTHER -> lo \oplus Uniform(<<k, "w">>, "0.1", 9)>>)])
       [] f = "nextpow2" -> With(c, [k |-> 1 + IRand(<<k, "v">>, IF IRand(<<k, "big">>, 2) = 0 THEN 70 ELSE 1000000)])
       [] f = "legendre" -> With(c, [k |-> IRand(<<k, "deg">>, 16), x |-> RFmt(<<Uniform(<<k, "x">>, "-1.3", "1.3")>>)])
       [] f = "normalize" -> With(c, [u |-> NFmt(IF IRand(<<k, "z">>, 9) = 0 THEN Rand(k, n, 0) ELSE Rand(k, n, s))])
       [] OTHER -> With(c, [u |-> NFmt(<<Arg(k)>>)]) >>
(* ------------------------------------------------------------------------ *)
Pow2(n) == \E e \in 0..30 : n = 2^e
(* Rodrigues: sum over binomials *)
RECURSIVE Binom(_, _)
Binom(n, j) == IF j = 0 \/ j = n THEN 1 ELSE Binom(n - 1, j - 1) + Binom(n - 1, j)
Legendre(n, x) == VSum([j \in 1..(n + 1) |-> (Sq(Binom(n, j - 1)) \otimes CPow((x \ominus 1) \oslash 2, n - j + 1)) \otimes CPow((x \oplus 1) \oslash 2, j - 1)])
(* power series of sin(x)/x and of its derivative; the closed forms away from zero *)
Terms == [j \in 1..14 |-> j - 1]
RECURSIVE Fac(_)
Fac(n) == IF n = 0 THEN Num(1) ELSE n \otimes Fac(n - 1)
Sign(n) == IF n % 2 = 0 THEN 1 ELSE -1
Sinc(x) == IF CAbs(x) \prec 1 THEN VSum(Vec([j \in 1..14 |-> (Sign(j - 1) \otimes CPow(x, 2*(j - 1))) \oslash Fac(2*j - 1)])) ELSE CSin(x) \oslash x
SincD(x) == IF CAbs(x) \prec 1 THEN VSum(Vec([j \in 1..13 |-> ((Sign(j) \otimes (2*j)) \otimes CPow(x, 2*j - 1)) \oslash Fac(2*j + 1)])) ELSE (CCos(x) \ominus Sinc(x)) \oslash x
MaxOf(u) == Fold(LAMBDA acc, x : RMax(acc, x), Num(0), u)
Hausdorff(u, v) == RMax(MaxOf(Vec([j \in 1..Len(u) |-> VNearest(v, u[j])])), MaxOf(Vec([j \in 1..Len(v) |-> VNearest(u, v[j])])))
AbsAll(u) == Vec([j \in 1..Len(u) |-> CAbs(u[j])])
Diff(u, v) == VAdd(u, VScale(-1, v))
Rel(x, y, tol) == CAbs(x \ominus y) \preceq (tol \otimes CAbs(y))
J(h, a, r) ==
  LET x == NParse(r.r)[1]  z == NParse(r.c)[1]  f == a.f IN
  CASE f = "rel_err" -> [value |-> LET u == NParse(a.u)  v == NParse(a.v) IN Rel(x, VSum(AbsAll(Diff(u, v))) \oslash VSum(AbsAll(v)), "1e-12")]
    [] f = "hausdorff" -> [value |-> LET d == Hausdorff(NParse(a.u), NParse(a.v)) IN Rel(x, d, "1e-12")]
    [] f = "l2norm2" -> LET lo == Num(a.x)  hi == Num(a.y) u == NParse(a.u) IN
         [value |-> IF hi \preceq lo THEN ~CFinite(x) ELSE Rel(x, ((hi \ominus lo) \oslash Len(u)) \otimes VSum(Vec([j \in 1..Len(u) |-> Sq(CAbs(u[j]))])), "1e-12")]
    [] f = "nextpow2" -> LET n == RRound(x) IN [value |-> Pow2(n) /\ n >= a.k /\ (n = 1 \/ n < 2*a.k)]
    [] f = "legendre" -> [value |-> LET y == Legendre(a.k, Num(a.x)) IN CAbs(x \ominus y) \preceq ("1e-11" \otimes RMax(1, RPow(2, a.k)))]
    [] f = "sech" -> [value |-> LET y == NParse(a.u)[1] IN Near(z \otimes ((CExp(y) \oplus CExp(CNeg(y))) \oslash 2), 1, "1e-11") \/ CAbs((CExp(y) \oplus CExp(CNeg(y))) \oslash 2) \prec "0.001"]
    [] f = "csinc" -> [value |-> LET y == NParse(a.u)[1] IN Near(z, Sinc(y), "1e-12")]
    [] f = "csinc_d" -> [value |-> LET y == NParse(a.u)[1] IN CAbs(z \ominus SincD(y)) \preceq ("1e-12" \otimes (CAbs(SincD(y)) \oplus (IF CAbs(y) \prec 1 THEN Num(0) ELSE CAbs(Sinc(y)))))]
    [] OTHER -> LET u == NParse(a.u)  w == NParse(r.res)  top == VMaxAbs(u) IN
         [value |-> IF CEq(top, 0) THEN r.ret = 0 /\ VMaxAbs(w) \preceq 0
                    ELSE VDist(VScale(CPow(2, r.ret), w), u) \preceq ("1e-15" \otimes top) /\ "0.999999" \preceq VMaxAbs(w) /\ VMaxAbs(w) \prec 2]
=============================================================================
