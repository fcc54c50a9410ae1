-------------------------------- MODULE A05 ---------------------------------
(* Output buffers.  Every session: one call with ample capacity, then the    *)
(* same call with announced capacities 0..6, around the true count and with  *)
(* other ample capacities.                                                   *)
(* Truncation may happen before merging and filtering in the methods that    *)
(* refine a coarse result, so that fewer points than fit may be returned     *)
(* there - but never without a warning.                                      *)
EXTENDS Flow, Catalog
N == Tier(400, 4000)
KeyOf(i) == <<Seed, "A05", i>>
Hook == [op |-> "sethook", h |-> "A"]
BigAmp(k) == Uniform(<<k, "amp">>, "0.8", "2.8")
Ample == 400
NsevC0(k) ==
  LET loc == PickSeq(<<k, "loc">>, <<0, 0, 1, 2>>)
      d == PickSeq(<<k, "d">>, IF loc = 1 /\ Chance(<<k, "sl">>, 2) THEN SlowIds ELSE SmallFast)
      D == PickSeq(<<k, "D">>, IF loc = 2 THEN <<32, 45>> ELSE <<12, 16, 21>>)
  IN With(NsevV(k), [q |-> NFmt(NoisyPulse(k, D, BigAmp(k))), o_discretization |-> d, o_bound_state_localization |-> loc, kappa |-> PickSeq(<<k, "kap">>, <<1, 1, 1, 1, -1>>),
     o_bound_state_filtering |-> PickSeq(<<k, "fil">>, IF loc = 2 THEN <<2>> ELSE <<1, 2, 2, 0>>), bs |-> 1, nc |-> IF Chance(<<k, "nc">>, 4) THEN 0 ELSE 1, K |-> IF loc = 1 THEN 5 ELSE Ample, eig |-> IF loc = 1 THEN 0 ELSE 1] @@
     (IF loc = 1 THEN [init |-> NFmt(Guess(k, 5))] ELSE <<>>))
(* constants or refinements of unfiltered, spurious roots need not exist *)
NsevC(k) == LET a == NsevC0(k) IN IF a.o_bound_state_filtering = 0 THEN With(a, [nc |-> 0, o_richardson_extrapolation_flag |-> 0]) ELSE a
KdvvC(k) ==
  LET loc == PickSeq(<<k, "loc">>, <<1, 1, 0>>)  D == PickSeq(<<k, "D">>, <<16, 21, 32>>)
      q == NoisyPulse(k, D, "2.5" \otimes BigAmp(k)) IN
  With(KdvvV(k), [q |-> NFmt(Vec([j \in 1..D |-> CRe(q[j]) \oplus "0.1"])), o_discretization |-> PickSeq(<<k, "d">>, <<1, 5, 22, 23, 25, 26, 29, 32, 50, 51, 54>>), o_bound_state_localization |-> loc,
     o_grid_spacing |-> "0.05", bs |-> 1, nc |-> IF Chance(<<k, "nc">>, 4) THEN 0 ELSE 1, K |-> IF loc = 0 THEN 4 ELSE Ample] @@
     (IF loc = 0 THEN [init |-> NFmt(<<Cx(0, "0.3"), Cx(0, "0.7"), Cx(0, "1.1"), Cx(0, "1.5")>>)] ELSE <<>>))
ManC(k) == With(ManV(k), [q |-> NFmt(NoisyPulse(<<k, 1>>, 10, BigAmp(<<k, 1>>))), q2 |-> NFmt(NoisyPulse(<<k, 2>>, 10, BigAmp(<<k, 2>>))), o_discretization |-> PickSeq(<<k, "d">>, <<0, 2, 5, 8>>),
     kappa |-> PickSeq(<<k, "kap">>, <<1, 1, 1, -1>>), bs |-> 1, nc |-> 0, K |-> Ample, eig |-> 1, o_bound_state_filtering |-> PickSeq(<<k, "fil">>, <<1, 1, 0>>)])
NsepC(k) == With(NsepV(k), IF Chance(<<k, "as">>, 3) THEN [ms |-> 1] ELSE [as |-> 1])
Base(k) == LET n == IRand(<<k, "kind">>, 10) IN
  With(CASE n <= 3 -> NsevC(k) [] n \in {4, 5, 6} -> KdvvC(k) [] n = 7 -> ManC(k) [] OTHER -> NsepC(k), [what |-> "bound"])
Newton(a) == (a.op = "nsev" /\ a.o_bound_state_localization = 1) \/ (a.op = "kdvv" /\ a.o_bound_state_localization = 0) \/ (a.op = "nsep" /\ a.o_localization = 1)
Coarse(a) == (a.op = "nsev" /\ a.o_bound_state_localization = 2) \/ (a.op = "nsep" /\ a.o_localization \in {0, 3})
Rich(a) == Get(a, "o_richardson_extrapolation_flag", 0) = 1
Cap(a, K, M) == With(a, IF a.op = "nsep" THEN [K |-> K, M |-> M] ELSE [K |-> K])
(* discrete part not asked for *)
Unasked(a) == IF a.op = "nsep" THEN LET f == IF a.as = 0 THEN 0 ELSE IRand(<<a.q, "u">>, 2) IN With(a, [ms |-> f, as |-> 1 - f, o_filtering |-> 0])
              ELSE With(a, [bs |-> 0, nc |-> 0])
Sess(i) == LET k == KeyOf(i)  a == Base(k)  kind == IRand(<<k, "caps">>, 3)
               caps == IF Newton(a) THEN <<a.K - 1, 1, 0>>
                       ELSE IF kind = 0 THEN <<0, 1, 2, 3, Ample + 77>> ELSE IF kind = 1 THEN <<3, 1, 4, 2, 5>> ELSE <<2, 6, 1, Ample - 1, 8>>
           IN <<Hook, a>> \o Vec([j \in 1..Len(caps) |-> Cap(a, caps[j], IF Newton(a) THEN caps[j] ELSE caps[1 + (j % Len(caps))])]) \o
              (IF Newton(a) /\ a.op = "nsep" THEN <<>> ELSE <<Unasked(a)>>)
(* ------------------------------------------------------------------------ *)
Size(s) == Len(Num2(s))
Within(x, y, tol) == LET u == Num2(x)  w == Num2(y)  t == Num(tol) \otimes RMax(1, VMaxAbs(w)) IN \A j \in 1..Len(u) : \E m \in 1..Len(w) : CAbs(u[j] \ominus w[m]) \preceq t
(* every stored point carries the constants of that point *)
Paired(a, r, s) ==
  LET u == Num2(r.bs)  w == Num2(s.bs)  x == Num2(r.nc)  y == Num2(s.nc)  n == Len(u)  m == Len(w)
      f(z) == IF Get(a, "o_discspec_type", 0) = 2 THEN 2 ELSE 1
      tol == IF a.eig = 1 THEN Num("1e-4") ELSE Num("1e-9") IN
  Len(x) = f(0)*n /\
  \A j \in 1..n : \E p \in 1..m : /\ CAbs(u[j] \ominus w[p]) \preceq (tol \otimes RMax(1, CAbs(w[p])))
                                  /\ \A b \in 0..(f(0) - 1) : LET v == y[b*m + p] IN CAbs(x[b*n + j] \ominus v) \preceq (tol \otimes RMax("1e-2", CAbs(v))) \/ ~CFinite(v)
Count(r, f) == IF f = "as" THEN r.Mout ELSE r.Kout
CapOf(a, f) == IF f = "as" THEN a.M ELSE a.K
Outs(a) == IF a.op = "nsep" THEN (IF a.ms = 1 THEN {"ms"} ELSE {}) \cup (IF a.as = 1 THEN {"as"} ELSE {}) ELSE IF a.bs = 1 THEN {"bs"} ELSE {}
(* Refining a root that is not an eigenvalue may end in a division by zero *)
Spurious(a, r) == a.op = "nsev" /\ a.bs = 1 /\ a.o_bound_state_filtering # 2 /\ r.ret \in {3, -3}
J(h, a, r) ==
  IF a.op = "sethook" THEN [hook |-> r.got = "A"]
  ELSE LET none == IF a.op = "nsep" THEN a.ms = 0 \/ a.as = 0 ELSE a.bs = 0
           first == h[2]  s == first.r
           wants == Outs(a) IN
  [guard |-> r.guard = 1, success |-> r.ret = 0 \/ Spurious(a, r), no_leak |-> r.live = 0, silent |-> r.errs = 0 \/ Spurious(a, r)] @@
  (IF r.ret # 0 THEN <<>> ELSE
   [within_capacity |-> \A f \in wants : Count(r, f) <= CapOf(a, f) /\ Size(r[f]) = Count(r, f),
    zero_if_unasked |-> (Newton(a) /\ a.op = "nsep") \/ (IF a.op = "nsep" THEN (a.ms = 1 \/ r.Kout = 0) /\ (a.as = 1 \/ r.Mout = 0)
                                                        ELSE (a.bs = 1 /\ Get(a, "kappa", 1) = 1) \/ a.K < 0 \/ r.Kout = 0)] @@
   (IF Len(h) = 1 \/ s.ret # 0 \/ none THEN <<>> ELSE
    LET tol == IF a.eig = 1 THEN "1e-5" ELSE "1e-10"
        fits(f) == Count(s, f) <= CapOf(a, f)
        (* every list that is cut short is announced on its own *)
        cut == {f \in wants : Count(r, f) # Count(s, f)}
        announced == Cardinality(cut) <= r.warns \/ (a.op = "kdvv" /\ a.K = 0) IN
    (IF Newton(a) THEN <<>> ELSE
      [announced |-> announced] @@
      (IF Rich(a) THEN <<>> ELSE
        [subset |-> \A f \in wants : Within(r[f], s[f], tol),
         paired |-> Get(a, "nc", 0) = 0 \/ ~Has(r, "nc") \/ a.op = "manakovv" \/ Paired(a, r, s),
         filled |-> Coarse(a) \/ \A f \in wants : fits(f) \/ Count(r, f) = CapOf(a, f),
         same_if_fits |-> ~(\A f \in wants : fits(f)) \/ (Coarse(a) /\ r.warns > s.warns) \/ SameResults(a, With(r, [nc |-> ""]), With(s, [nc |-> ""]))]))))
=============================================================================
