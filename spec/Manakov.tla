------------------------------ MODULE Manakov -------------------------------
(* v_t = [[-i l, q1, q2], [-k q1*, i l, 0], [-k q2*, 0, i l]] v              *)
EXTENDS Akns
ManNames == <<"2SPLIT3A","2SPLIT3B","2SPLIT4A","2SPLIT4B","2SPLIT6B","4SPLIT4A","4SPLIT4B","4SPLIT6B","FTES4_4A","FTES4_4B","FTES4_suzuki","CF4_2","BO">>
ManName(d) == ManNames[d + 1]
ManAll == {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12}        \* FTES4_4B is not available
ManSlow(d) == ManName(d) \in {"CF4_2", "BO"}
ManUp(d) == IF ManName(d) \in {"4SPLIT4A","4SPLIT4B","4SPLIT6B","CF4_2"} THEN 2 ELSE 1
ManOrder(d) == IF ManName(d) \in {"2SPLIT3A","2SPLIT3B","2SPLIT4A","2SPLIT4B","2SPLIT6B","BO"} THEN 2 ELSE 4
ManDegree(d) == <<6, 6, 8, 4, 12, 8, 4, 12, 8, 8, 14, 0, 0>>[d + 1]
Id3 == <<<<1,0,0>>,<<0,1,0>>,<<0,0,1>>>>
M3A(t, h, l) == LET e == CExp((I \otimes l) \otimes (h \otimes t)) IN <<<<1 \oslash e, 0, 0>>, <<0, e, 0>>, <<0, 0, e>>>>
Gen3(x, q1, q2, kap) == <<<<0, x \otimes q1, x \otimes q2>>, <<(CNeg(kap) \otimes x) \otimes CConj(q1), 0, 0>>, <<(CNeg(kap) \otimes x) \otimes CConj(q2), 0, 0>>>>
M3B(t, h, q1, q2, kap) == MExp(Gen3(h \otimes t, q1, q2, kap))
RECURSIVE MPow3(_, _)
MPow3(m, n) == IF n = 0 THEN Id3 ELSE IF n = 1 THEN m ELSE MMul(m, MPow3(m, n - 1))
Fam3(f, n, h, l, q1, q2, kap) ==
  LET a(t) == M3A(t, h, l)  b(t) == M3B(t, h, q1, q2, kap) IN
  CASE f = "SA" -> MPow3(MMul(a("0.5" \oslash n), MMul(b(1 \oslash n), a("0.5" \oslash n))), n)
    [] f = "SB" -> MPow3(MMul(b("0.5" \oslash n), MMul(a(1 \oslash n), b("0.5" \oslash n))), n)
    [] f = "OA" -> MMul(a(1 \oslash n), MMul(MPow3(MMul(b(2 \oslash n), a(2 \oslash n)), (n - 1) \div 2), b(1 \oslash n)))
    [] f = "OB" -> MMul(b(1 \oslash n), MMul(MPow3(MMul(a(2 \oslash n), b(2 \oslash n)), (n - 1) \div 2), a(1 \oslash n)))
Split3(n, h, l, q1, q2, kap) ==
  LET term(t) == MScale(t[1] \oslash t[2], Fam3(t[3], t[4], h, l, q1, q2, kap))  ts == Terms(n)
  IN Fold(LAMBDA acc, t : MAdd(acc, term(t)), term(ts[1]), Tail(ts))
Bo3(h, l, q1, q2, kap) == LET x == I \otimes (h \otimes l)  g == Gen3(h, q1, q2, kap) IN
  MExp(<<<<CNeg(x), g[1][2], g[1][3]>>, <<g[2][1], x, 0>>, <<g[3][1], 0, x>>>>)
Suzuki(h, l, q1, q2, kap) ==
  LET a(t) == M3A(t, h, l)  b(t) == M3B(t, h, q1, q2, kap)
      u == 7 \oslash 48  v == 3 \oslash 8  w == (-1) \oslash 48  t == 1 \oslash 3  s == (-1) \oslash 3
  IN MProd(<<b(u), a(t), b(v), a(s), b(w), a(1), b(w), a(s), b(v), a(t), b(u)>>)
(* the samples around one step: first components x, second components y;    *)
(* for FTES4 previous, present and next sample                              *)
Edge(h, x, y, sg, kap) ==
  LET f(v) == ((sg \otimes (v[3] \ominus v[1])) \oslash 24) \oplus (((v[3] \ominus (2 \otimes v[2])) \oplus v[1]) \oslash 48)
  IN MExp(Gen3(h, f(x), f(y), kap))
Step3(d, h, l, x, y, kap) ==
  LET n == ManName(d) IN
  CASE n = "BO" -> Bo3(h, l, x[1], y[1], kap)
    [] n = "CF4_2" -> MMul(Bo3(h \oslash 2, l, x[2], y[2], kap), Bo3(h \oslash 2, l, x[1], y[1], kap))
    [] n \in {"4SPLIT4A","4SPLIT4B","4SPLIT6B"} ->
         LET b == CASE n = "4SPLIT4A" -> "2SPLIT4A" [] n = "4SPLIT4B" -> "2SPLIT4B" [] n = "4SPLIT6B" -> "2SPLIT6B"
         IN MMul(Split3(b, h \oslash 2, l, x[2], y[2], kap), Split3(b, h \oslash 2, l, x[1], y[1], kap))
    [] n \in {"FTES4_4A", "FTES4_suzuki"} ->
         MMul(Edge(h, x, y, 1, kap), MMul(IF n = "FTES4_4A" THEN Split3("2SPLIT4A", h, l, x[2], y[2], kap) ELSE Suzuki(h, l, x[2], y[2], kap), Edge(h, x, y, -1, kap)))
    [] OTHER -> Split3(n, h, l, x[1], y[1], kap)
(* the samples of one component as the scheme needs them; nodes of the       *)
(* fourth order scheme are inside the interval to the right of the sample    *)
ManPrep(d, q, k, m) ==
  LET at(j) == q[1 + (j - 1)*k]  s == Vec([j \in 1..m |-> at(j)]) IN
  IF ManUp(d) = 2 THEN
    LET w == RawWeights("CF4_2")
        c1 == Shifted(s, "0.5" \ominus (S3 \oslash 6))  c2 == Shifted(s, "0.5" \oplus (S3 \oslash 6))
        p == "0.25" \oplus (S3 \oslash 6)  n == "0.25" \ominus (S3 \oslash 6)
    IN Vec([j \in 1..m |-> << 2 \otimes ((p \otimes c1[j]) \oplus (n \otimes c2[j])), 2 \otimes ((n \otimes c1[j]) \oplus (p \otimes c2[j])) >>])
  ELSE IF ManName(d) \in {"FTES4_4A", "FTES4_suzuki"} THEN
    Vec([j \in 1..m |-> << s[IF j = 1 THEN 1 ELSE j - 1], s[j], s[IF j = m THEN m ELSE j + 1] >>])
  ELSE Vec([j \in 1..m |-> <<s[j]>>])
ManProblem(d, q1, q2, T, kap, Dsub) ==
  LET D == Len(q1)  h0 == (T[2] \ominus T[1]) \oslash (D - 1)  k == SkipOf(D, Dsub)  m == StepsOf(D, Dsub)
      h == h0 \otimes k  t2 == T[1] \oplus (h0 \otimes ((m - 1)*k))  half == h \oslash 2
  IN [d |-> d, h |-> h, kap |-> kap, x |-> ManPrep(d, q1, k, m), y |-> ManPrep(d, q2, k, m),
      lo |-> IF ManUp(d) = 2 THEN T[1] ELSE T[1] \ominus half, hi |-> IF ManUp(d) = 2 THEN t2 \oplus h ELSE t2 \oplus half]
Mono3(pr, l) == MProd([j \in 1..Len(pr.x) |-> Step3(pr.d, pr.h, l, pr.x[j], pr.y[j], pr.kap)])
(* <<a, b1, b2>> *)
ABB(pr, l) ==
  LET m == Mono3(pr, l)  ph == CExp(CNeg(I \otimes l) \otimes (pr.hi \oplus pr.lo)) IN
  <<m[1][1] \otimes CExp((I \otimes l) \otimes (pr.hi \ominus pr.lo)), m[2][1] \otimes ph, m[3][1] \otimes ph>>
MGrid(XI, M) == [j \in 1..M |-> IF j = 1 THEN Num(XI[1]) ELSE XI[1] \oplus ((j - 1) \otimes ((XI[2] \ominus XI[1]) \oslash (M - 1)))]
(* 0: rho1, rho2   1: a, b1, b2   2: rho1, rho2, a, b1, b2 *)
MLayout(type, v) ==
  LET M == Len(v)  col(k) == Vec([j \in 1..M |-> v[j][k]])  rho(k) == Vec([j \in 1..M |-> v[j][k] \oslash v[j][1]])
  IN CASE type = 0 -> rho(2) \o rho(3) [] type = 1 -> col(1) \o col(2) \o col(3) [] type = 2 -> rho(2) \o rho(3) \o col(1) \o col(2) \o col(3)
=============================================================================
