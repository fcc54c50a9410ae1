-------------------------------- MODULE I02 ---------------------------------
(* Downsampling, bandlimited shifts, and the samples handed to each scheme.  *)
EXTENDS Flow, Nse, Kdv, Manakov, Signals
N == Tier(1600, 16000)
KeyOf(i) == <<Seed, "I02", i>>
Rand(k, n) == Vec([j \in 1..n |-> Cx(Uniform(<<k, j, "r">>, -1, 1), Uniform(<<k, j, "i">>, -1, 1))])
RealRand(k, n) == Vec([j \in 1..n |-> Num(Uniform(<<k, j, "r">>, -1, 1))])
Size(k) == 3 + IRand(<<k, "D">>, IF IRand(<<k, "big">>, 8) = 0 THEN 90 ELSE 30)
DownSess(k) == LET D == Size(k) IN <<[op |-> "downsample", q |-> NFmt(Rand(k, D)), Dsub |-> IRand(<<k, "Ds">>, D + 4)]>>
ResSess(k) ==
  LET D == Size(k)  eps == Uniform(<<k, "eps">>, "0.05", 2)
      x == PickSeq(<<k, "x">>, <<Uniform(<<k, "f">>, "-0.5", "0.5"), Uniform(<<k, "f">>, -4, 4), Num(0), Num(1), Num((-2))>>)
      q == Rand(k, D)
      c == [op |-> "resample", q |-> NFmt(q), eps |-> RFmt(<<eps>>), delta |-> RFmt(<<eps \otimes x>>), x |-> RFmt(<<x>>)]
  IN <<c>>
PrepSess(k, i) ==
  LET kdv == IRand(<<k, "pde">>, 2) = 0
      dis == IF kdv THEN (i \div 4) % 56 ELSE (i \div 4) % 28
      D == Size(k)
      q == IF kdv THEN RealRand(k, D) ELSE Rand(k, D)
      Ds == IF IRand(<<k, "full">>, 2) = 0 THEN D ELSE IRand(<<k, "Ds">>, D + 4)
  IN <<[op |-> "preprocess", pde |-> IF kdv THEN "kdv" ELSE "nse", q |-> NFmt(q), dis |-> dis, Dsub |-> Ds,
        eps |-> RFmt(<<Uniform(<<k, "eps">>, "0.05", 2)>>), kappa |-> IF kdv THEN 1 ELSE PickSeq(<<k, "kap">>, <<1, -1>>)]>>
ManSess(k, i) ==
  LET D == Size(k)  dis == PickSeq(<<k, "dis">>, <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12>>)
      Ds == IF IRand(<<k, "full">>, 2) = 0 THEN D ELSE 6 + IRand(<<k, "Ds">>, D + 4)
  IN <<[op |-> "mpreprocess", q |-> NFmt(Rand(<<k, 1>>, D)), q2 |-> NFmt(Rand(<<k, 2>>, D)), dis |-> dis, Dsub |-> IF Ds > D THEN D ELSE Ds,
        eps |-> RFmt(<<Uniform(<<k, "eps">>, "0.05", 2)>>)]>>
Sess(i) == LET k == KeyOf(i) IN CASE i % 12 = 0 -> DownSess(k) [] i % 4 = 0 -> ManSess(k, i) [] i % 4 = 1 -> ResSess(k) [] OTHER -> PrepSess(k, i)
(* ------------------------------------------------------------- verdict *)
Flat(gs) == Fold(LAMBDA acc, g : acc \o g, <<>>, gs)
(* the signal passed on: averages over the two halves of a step as weights   *)
(* of the whole step, plain samples otherwise                                *)
ManFlat(d, q, k, m) == LET g == ManPrep(d, q, k, m) IN
  IF ManUp(d) = 2 THEN VScale("0.5", Flat(g)) ELSE Vec([j \in 1..m |-> IF Len(g[j]) = 3 THEN g[j][2] ELSE g[j][1]])
Marks(D, Dsub, r) == r.first = 0 /\ r.last = (StepsOf(D, Dsub) - 1)*SkipOf(D, Dsub) /\ r.last < D /\ r.Dsub = StepsOf(D, Dsub)
J(h, a, r) ==
  IF r.ret # 0 THEN [success |-> FALSE] ELSE
  LET q == NParse(a.q)  D == Len(q) IN
  CASE a.op = "downsample" ->
         LET k == SkipOf(D, a.Dsub)  m == StepsOf(D, a.Dsub) IN
         [marks |-> Marks(D, a.Dsub, r), samples |-> LET u == NParse(r.res) IN Len(u) = m /\ \A j \in 1..m : CEq(u[j], q[1 + (j - 1)*k])]
    [] a.op = "resample" -> [guard |-> r.guard = 1, shifted |-> VNear(NParse(r.res), Shifted(q, NParse(a.x)[1]), "1e-11")]
    [] a.op = "mpreprocess" ->
         LET k == SkipOf(D, a.Dsub)  m == StepsOf(D, a.Dsub)  q2 == NParse(a.q2) IN
         [marks |-> Marks(D, a.Dsub, r), upsampling |-> r.up = ManUp(a.dis),
          q |-> VNear(NParse(r.qp), ManFlat(a.dis, q, k, m), "1e-10"), r |-> VNear(NParse(r.rp), ManFlat(a.dis, q2, k, m), "1e-10")]
    [] a.op = "preprocess" ->
         LET eps == NParse(a.eps)[1]
             p == IF a.pde = "kdv" THEN KdvPrep(KdvBase(a.dis), a.Dsub, q, eps)   (* roles are swapped later *)
                      ELSE NsePrep(a.dis, a.Dsub, q, eps, a.kappa)
             up == Up(IF a.pde = "kdv" THEN KdvBase(a.dis) ELSE a.dis)
         IN [marks |-> Marks(D, a.Dsub, r), upsampling |-> r.up = up,
             q |-> VNear(NParse(r.qp), Flat(p.q), "1e-10"), r |-> VNear(NParse(r.rp), Flat(p.r), "1e-10")]
=============================================================================
