-------------------------------- MODULE B04 ---------------------------------
(* Norming constants and residues of the NSE transform.                      *)
EXTENDS Flow, Nse, Signals
N == Tier(336, 3360)
Amps == <<"0.9", "1.2", "1.9", "2.1", "3.2">>
Fast == <<0, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 18, 14, 19, 20, 21>>     \* degree at most 12 per step
KeyOf(i) == <<Seed, "B04", i>>
Perturbed(k, e) == Vec([j \in 1..Len(e) |-> e[j] \oplus Cx(Uniform(<<k, j, "x">>, "-0.02", "0.02"), Uniform(<<k, j, "y">>, "-0.02", "0.02"))])
Sess(i) ==
  LET k == KeyOf(i)  loc == IF i % 3 = 0 THEN (i \div 3) % 3 ELSE 1
      d == IF loc = 1 THEN (i \div 3 + 14*(i % 3)) % 28 ELSE PickSeq(<<k, "d">>, Fast)
      D == IF Degree(d) > 6 THEN 48 ELSE PickSeq(<<k, "D">>, <<48, 55, 64, 73>>)
      A == PickSeq(<<k, "A">>, IF loc = 1 THEN Amps ELSE <<"0.9", "1.2", "1.9", "2.1">>)
      s == Uniform(<<k, "s">>, "0.8", "1.3")  w == Uniform(<<k, "w">>, "-0.4", "0.4")
      T == RFmt(<<CNeg(Uniform(<<k, "T0">>, "5.5", "7.5") \oslash s), Uniform(<<k, "T1">>, "5.5", "7.5") \oslash s>>)
      q == Sech(NParse(T), D, A, s, Uniform(<<k, "t0">>, -1, 1), w, Uniform(<<k, "phi">>, -3, 3))
      e == SechEigs(A, s, w)  g == Perturbed(k, e)  n == Len(e)
      bx == RFmt(<<w \ominus "0.6", w \oplus "0.6", CIm(e[n]) \ominus ("0.25" \otimes s), CIm(e[1]) \oplus s>>)
      c == [op |-> "nsev", q |-> NFmt(q), T |-> T, M |-> 0, cs |-> 0, kappa |-> 1, bs |-> 1, nc |-> 1, o_discretization |-> d, K |-> IF loc = 1 THEN n ELSE Degree(d)*Up(d)*D,
            o_normalization_flag |-> IRand(<<k, "nf">>, 2), o_bound_state_localization |-> loc, o_bound_state_filtering |-> 3, o_bounding_box |-> bx, o_niter |-> 20, n |-> n]
      cc == IF loc = 1 THEN With(c, [init |-> NFmt(g)]) ELSE c
      ty(t) == With(cc, [o_discspec_type |-> t])
  IN << ty(2), ty(0), ty(1), With(ty(2), [o_normalization_flag |-> 1 - c.o_normalization_flag]) >>
     \o (IF loc = 1 THEN << With(ty(2), [init |-> NFmt(Reversed(g))]), With(ty(1), [M |-> 3, XI |-> "-1 1", cs |-> 1, o_contspec_type |-> i % 3]) >> ELSE <<>>)
Rel(x, y, tol) == CAbs(x \ominus y) \preceq (tol \otimes CAbs(y))
J(h, a, r) ==
  IF r.ret # 0 THEN [success |-> FALSE] ELSE
  LET bs == NParse(r.bs)  nc == NParse(r.nc)  K == r.Kout  ty == a.o_discspec_type
      pr == NseProblem(Refiner(a.o_discretization), NParse(a.q), NParse(a.T), 1)
      refined == a.o_bound_state_localization # 0
      b(j) == IF refined THEN NormConst(pr, bs[j]).b ELSE nc[j]
      isB(j) == ty = 1 \/ (Rel(nc[j], b(j), "1e-5"))
      isR(j) == IF ty = 0 \/ (ty = 1 /\ ~refined) THEN TRUE ELSE Rel(IF ty = 1 THEN nc[j] ELSE nc[K + j], b(j) \oslash APrime(pr, bs[j]), "1e-5")
      first == h[1].r
      fb == NParse(first.bs)  fn == NParse(first.nc)
      part == CASE ty = 0 -> Part(fn, 1, first.Kout) [] ty = 1 -> Part(fn, 2, first.Kout) [] OTHER -> fn
  IN [count |-> IF a.o_bound_state_localization = 1 THEN K = a.n ELSE K >= 1 \/ ~refined,
      length |-> Len(nc) = (IF ty = 2 THEN 2 ELSE 1)*K,
      norming_constants |-> \A j \in 1..K : isB(j),
      residues |-> \A j \in 1..K : isR(j),
      \* the same values whatever else is requested
      alone |-> Len(h) = 0 \/ first.ret # 0 \/ ~refined \/ first.Kout # K \/ ty = 2 \/ a.M > 0 \/
                  (VDist(bs, fb) \preceq "1e-6" => \A j \in 1..K : Rel(nc[j], part[j], "1e-5"))]
=============================================================================
