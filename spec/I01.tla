-------------------------------- MODULE I01 ---------------------------------
(* Filters and merging of lists of complex numbers.                          *)
EXTENDS Flow, Num
N == Tier(4000, 40000)
KeyOf(i) == <<Seed, "I01", i>>
Kinds == <<"box", "inv", "nonreal", "merge">>
(* values on a coarse lattice so that boundaries and coincidences are hit,   *)
(* with an occasional value that is not a number                             *)
Bad == Num(0) \oslash Num(0)
Inf == Num(1) \oslash CExp(-800)
Val(k, j) == IF IRand(<<k, j, "nan">>, 25) = 0 THEN Bad
             ELSE IF IRand(<<k, j, "g">>, 2) = 0 THEN Cx((IRand(<<k, j, "x">>, 9) - 4) \oslash 4, (IRand(<<k, j, "y">>, 9) - 4) \oslash 4)
             ELSE Cx(Uniform(<<k, j, "u">>, -1, 1), Uniform(<<k, j, "v">>, -1, 1))
Edge(k, n) == LET e == (IRand(<<k, n>>, 9) - 4) \oslash 4 IN
  CASE IRand(<<k, n, "inf">>, 8) = 0 -> (IF n \in {"l", "b"} THEN "-inf" ELSE "inf") [] OTHER -> RFmt(<<e>>)
Ordered(lo, hi) == lo = "-inf" \/ hi = "inf" \/ NParse(lo)[1] \preceq NParse(hi)[1]
Sess(i) ==
  LET k == KeyOf(i)  kind == Kinds[1 + (i % 4)]
      n == IRand(<<k, "n">>, 14)
      v == Vec([j \in 1..n |-> Val(k, j)])
      w == Vec([j \in 1..n |-> Cx(j, CNeg(j))])
      l == Edge(k, "l")  r == Edge(k, "r")  b == Edge(k, "b")  t == Edge(k, "t")
      tol == PickSeq(<<k, "tol">>, <<"0", "0.25", "0.5", "0.1", "0.01", "1", "10", "-1">>)
      base == [op |-> "filter", kind |-> kind, v |-> NFmt(v)]
      c == IF kind \in {"box", "inv"} THEN With(base, [bb |-> l \o " " \o r \o " " \o b \o " " \o t]) ELSE With(base, [tol |-> tol])
      d == IF kind \in {"box", "inv"} /\ n > 0 /\ IRand(<<k, "w">>, 2) = 0 THEN With(c, [w |-> NFmt(w)]) ELSE c
      e == With(d, [okbox |-> IF kind \in {"box", "inv"} THEN Ordered(l, r) /\ Ordered(b, t) ELSE tol # "-1", l |-> l, r |-> r, b |-> b, t |-> t])
  IN <<e>>
(* ------------------------------------------------------------- verdict *)
Low(e, x) == e = "-inf" \/ (e # "inf" /\ NParse(e)[1] \preceq x)
LowS(e, x) == e = "-inf" \/ (e # "inf" /\ NParse(e)[1] \prec x)
High(e, x) == e = "inf" \/ (e # "-inf" /\ x \preceq NParse(e)[1])
HighS(e, x) == e = "inf" \/ (e # "-inf" /\ x \prec NParse(e)[1])
Inside(a, z) == CFinite(z) /\ Low(a.l, CRe(z)) /\ High(a.r, CRe(z)) /\ Low(a.b, CIm(z)) /\ High(a.t, CIm(z))
Interior(a, z) == CFinite(z) /\ LowS(a.l, CRe(z)) /\ HighS(a.r, CRe(z)) /\ LowS(a.b, CIm(z)) /\ HighS(a.t, CIm(z))
Same(x, y) == IF CFinite(x) THEN CFinite(y) /\ CEq(x, y) ELSE ~CFinite(y)
SameSeq(u, w) == Len(u) = Len(w) /\ \A j \in 1..Len(u) : Same(u[j], w[j])
Keep(v, sel(_)) == Fold(LAMBDA acc, j : IF sel(v[j]) THEN acc \o <<j>> ELSE acc, <<>>, [j \in 1..Len(v) |-> j])
At(v, js) == [n \in 1..Len(js) |-> v[js[n]]]
(* u is obtained from v by dropping entries; every dropped one may be dropped *)
RECURSIVE SubRun(_, _, _, _, _)
SubRun(v, u, m, n, may) == IF m > Len(v) THEN n > Len(u)
  ELSE \/ (n <= Len(u) /\ Same(v[m], u[n]) /\ SubRun(v, u, m + 1, n + 1, may))
       \/ (may[m] /\ SubRun(v, u, m + 1, n, may))
J(h, a, r) ==
  LET v == IF a.v = "" THEN <<>> ELSE NParse(a.v) IN
  IF ~a.okbox THEN [refused |-> r.ret # 0 \/ Len(v) = 0, untouched |-> r.guard = 1]
  ELSE IF r.ret # 0 THEN [success |-> FALSE] ELSE
  LET u == IF r.v = "" THEN <<>> ELSE NParse(r.v)
      common == [guard |-> r.guard = 1, count |-> r.N = Len(u)]
      box == Keep(v, LAMBDA z : Inside(a, z))
      moved(js) == ~Has(a, "w") \/ (LET w == NParse(a.w) x == IF r.w = "" THEN <<>> ELSE NParse(r.w) IN SameSeq(x, At(w, js)))
      tol == NParse(Get(a, "tol", "0"))[1]
      
  IN common @@
  CASE a.kind = "box" -> [kept |-> SameSeq(u, At(v, box)), companion |-> moved(box)]
    [] a.kind = "inv" -> (* boundary points may count as outside or not *)
                          [kept |-> SubRun(v, u, 1, 1, [m \in 1..Len(v) |-> CFinite(v[m]) => Inside(a, v[m])]) /\ \A j \in 1..Len(u) : CFinite(u[j]) => ~Interior(a, u[j]),
                          companion |-> (~Has(a, "w")) \/ (LET w == NParse(a.w) x == IF r.w = "" THEN <<>> ELSE NParse(r.w) IN
                             Len(x) = Len(u) /\ \A n \in 1..Len(x) : LET j == RRound(CRe(x[n])) IN Same(v[j], u[n]) /\ CEq(x[n], w[j]) /\ (n = 1 \/ CRe(x[n-1]) \prec CRe(x[n])))]
    [] a.kind = "nonreal" -> [kept |-> SubRun(v, u, 1, 1, [m \in 1..Len(v) |-> CFinite(v[m]) => CAbs(CIm(v[m])) \preceq tol])
                                       /\ \A j \in 1..Len(u) : CFinite(u[j]) => tol \prec CAbs(CIm(u[j]))]
    [] a.kind = "merge" -> LET fin(x) == At(x, Keep(x, LAMBDA z : CFinite(z)))  vf == fin(v)  uf == fin(u)
          RECURSIVE Grow(_, _)
          Grow(S, k) == LET G == {j \in 1..Len(vf) : \E m \in S : m = j \/ CAbs(vf[j] \ominus vf[m]) \prec tol} IN IF k = 0 \/ G = S THEN G ELSE Grow(G, k - 1)
          start == {j \in 1..Len(vf) : \E m \in 1..Len(uf) : CEq(vf[j], uf[m])}
       IN [sub |-> SubRun(v, u, 1, 1, [m \in 1..Len(v) |-> TRUE]),
           separated |-> \A m, j \in 1..Len(uf) : m # j => ~(CAbs(uf[m] \ominus uf[j]) \prec tol),
           (* every original point is linked to a kept one by steps shorter than tol *)
           linked |-> Grow(start, 20) = 1..Len(vf)]
=============================================================================
