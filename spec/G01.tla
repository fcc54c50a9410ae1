-------------------------------- MODULE G01 ---------------------------------
(* Fast products of polynomials and of polynomial matrices are exact.        *)
(* Coefficients are listed from the highest power down.                      *)
EXTENDS Flow, Num
N == Tier(600, 6000)
KeyOf(i) == <<Seed, "G01", i>>
Shapes == <<"1", "2x2", "3x3">>
Side(sh) == CASE sh = "1" -> 1 [] sh = "2x2" -> 2 [] sh = "3x3" -> 3
(* factor m, entry e (row-major), of n factors of degree d: scaled so that    *)
(* products can become very large or very small; some entries vanish          *)
Coef(k, m, e, j) == Cx(Uniform(<<k, m, e, j, "r">>, -1, 1), Uniform(<<k, m, e, j, "i">>, -1, 1))
Factor(k, m, e, d, wide) ==
  LET s == IF wide THEN RPow(10, Uniform(<<k, m, "s">>, -6, 6)) ELSE Num(1)
      zero == IRand(<<k, m, e, "z">>, 9) = 0
  IN Vec([j \in 1..(d + 1) |-> IF zero /\ e > 1 THEN Num(0) ELSE s \otimes Coef(k, m, e, j)])
Sess(i) ==
  LET k == KeyOf(i)  sh == Shapes[1 + (i % 3)]  sd == Side(sh)
      n == PickSeq(<<k, "n">>, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16, 17, 23>>)
      d == PickSeq(<<k, "d">>, IF n > 9 THEN <<0, 1, 2, 3, 4>> ELSE <<0, 1, 2, 3, 4, 5, 6, 8, 12, 14>>)
      wide == IRand(<<k, "wide">>, 3) = 0
      F(e) == Fold(LAMBDA acc, m : acc \o Factor(k, m, e, d, wide), <<>>, [m \in 1..n |-> m])
      p == Fold(LAMBDA acc, e : acc \o F(e), <<>>, [e \in 1..(sd*sd) |-> e])
      c == [op |-> "fmult", shape |-> sh, p |-> NFmt(p), deg |-> d, n |-> n, norm |-> 1]
  IN <<c, With(c, [norm |-> 0])>>
(* the ordered product, by its definition *)
PAdd(u, w) == IF u = <<>> THEN w ELSE VAdd(u, w)
PMat(p, sd, d, n, m) == [a \in 1..sd |-> [b \in 1..sd |-> LET e == (a - 1)*sd + b IN SubSeq(p, ((e - 1)*n + m - 1)*(d + 1) + 1, ((e - 1)*n + m)*(d + 1))]]
PMMul(A, B) == LET sd == Len(A) IN [a \in 1..sd |-> [b \in 1..sd |-> Fold(LAMBDA acc, c : PAdd(acc, PMul(A[a][c], B[c][b])), <<>>, [c \in 1..sd |-> c])]]
Product(p, sd, d, n) == Fold(LAMBDA acc, m : PMMul(acc, PMat(p, sd, d, n, m)), PMat(p, sd, d, n, 1), [m \in 1..(n - 1) |-> m + 1])
FlatP(A) == LET sd == Len(A) IN Fold(LAMBDA acc, e : acc \o A[1 + ((e - 1) \div sd)][1 + ((e - 1) % sd)], <<>>, [e \in 1..(sd*sd) |-> e])
(* sum of the sizes of all terms of the largest coefficient: what rounding is relative to *)
SizeOf(p, sd, d, n) == LET ab(m) == PMat(p, sd, d, n, m)
   norm(m) == Fold(LAMBDA x, e : RMax(x, CSqrt(VSum([j \in 1..(d + 1) |-> Sq(CAbs(e[j]))]))), Num(0), Fold(LAMBDA acc, a : acc \o ab(m)[a], <<>>, [a \in 1..sd |-> a]))
   IN Fold(LAMBDA x, m : (x \otimes norm(m)) \otimes sd, Num(1), [m \in 1..n |-> m])
J(h, a, r) ==
  LET sd == Side(a.shape) IN
  IF r.ret # 0 THEN [success |-> FALSE] ELSE
  LET p == NParse(a.p)  x == FlatP(Product(p, sd, a.deg, a.n))  res == NParse(r.res)  y == VScale(CPow(2, r.W), res)
      size == SizeOf(p, sd, a.deg, a.n)  top == VMaxAbs(x)
  IN [degree |-> r.degout = a.deg*a.n,
      buffers |-> r.guard = 1 /\ r.numel >= sd*sd*(a.deg*a.n + 1),
      product |-> Len(y) = Len(x) /\ VDist(y, x) \preceq (("1e-14" \otimes size) \oplus ("1e-12" \otimes top)),
      normalized |-> a.norm = 0 \/ a.n = 1 \/ CEq(top, 0) \/ (VMaxAbs(res) \prec "2.000001" /\ "0.25" \preceq VMaxAbs(res)),
      unscaled |-> a.norm = 1 \/ r.W = 0]
=============================================================================
