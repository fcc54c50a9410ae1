-------------------------------- MODULE H01 ---------------------------------
(* Inverse scattering applied to what forward scattering built.              *)
EXTENDS Flow, Nse, Signals
N == Tier(2400, 24000)
KeyOf(i) == <<Seed, "H01", i>>
(* peak of |q| h, and the sum of all of them, decide how well the problem is posed *)
Sess(i) ==
  LET k == KeyOf(i)
      kdv == i % 3 = 0
      modal == IRand(<<k, "dis">>, 2) = 0
      D == PickSeq(<<k, "D">>, <<2, 2, 4, 4, 8, 8, 16, 32, 64, 128, 256>>)
      kap == IF kdv THEN 1 ELSE PickSeq(<<k, "kap">>, <<1, -1>>)
      any == RPow(10, Uniform(<<k, "eps">>, -2, "0.3"))
      (* for KdV the other entry of the step matrix is the step itself *)
      eps == IF kdv THEN RMin(any, 6 \oslash D) ELSE any
      (* size of the steps *)
      peak == RMin(Uniform(<<k, "peak">>, "0.1", "0.8"), Uniform(<<k, "sum">>, 1, 6) \oslash D)
      dir(j) == IF kdv THEN Num(Uniform(<<k, j, "r">>, -1, 1)) ELSE Uniform(<<k, j, "r">>, "0.05", 1) \otimes CExp(I \otimes Uniform(<<k, j, "p">>, -4, 4))
      scale == IF kdv THEN peak \oslash RMax(eps, Sq(eps)) ELSE peak \oslash eps
      zero(j) == IRand(<<k, j, "zero">>, 12) = 0
      q == Vec([j \in 1..D |-> IF zero(j) THEN Num(0) ELSE scale \otimes dir(j)])
      r == Vec([j \in 1..D |-> IF kdv THEN Num(-1) ELSE NseR(kap, q[j])])
      dis == (IF modal THEN 0 ELSE 4) + (IF kdv THEN 28 ELSE 0)
  IN <<[op |-> "peel", pde |-> IF kdv THEN "kdv" ELSE "nse", q |-> NFmt(IF kdv THEN r ELSE q), r |-> NFmt(IF kdv THEN q ELSE r), dis |-> dis,
        eps |-> RFmt(<<eps>>), kappa |-> kap, D |-> D]>>
J(h, a, r) ==
  IF r.ret # 0 THEN [success |-> FALSE] ELSE
  LET q == NParse(IF a.pde = "kdv" THEN a.r ELSE a.q)  res == NParse(r.res)  eps == NParse(a.eps)[1]
      top == VMaxAbs(q)
      (* errors of late layers are passed on to earlier ones and grow with the product of the step matrices *)
      grow == Fold(LAMBDA g, x : g \otimes (LET y == RMax(CAbs(x) \otimes eps, IF a.pde = "kdv" THEN eps ELSE 0) IN (1 \oplus y) \oslash (1 \ominus RMin("0.9", y))), Num(1), q)
  IN [guard |-> r.guard = 1, length |-> r.deg = a.D /\ Len(res) = a.D,
      recovered |-> VDist(res, q) \preceq (("1e-14" \otimes grow) \otimes (top \oplus (1 \oslash eps)))]
=============================================================================
