-------------------------------- MODULE B06 ---------------------------------
(* Every discretization converges to the exact nonlinear spectrum of the     *)
(* underlying signal with its documented order, and Richardson extrapolation *)
(* improves on it.                                                           *)
EXTENDS Flow, Exact, Signals, Kdv, Manakov
NseN == 28
KdvN == 56
ManIds == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12>>
Per == NseN + KdvN + 12
N == Tier(2, 12)*Per
KeyOf(i) == <<Seed, "B06", i>>
Half(deg) == IF deg > 50 THEN 90 ELSE 128
FreqOf(k, D) == LET lo == Uniform(<<k, "lo">>, "-1.4", "-0.5") IN <<lo, Uniform(<<k, "hi">>, "0.4", "1.4")>>
Par(k) == [s |-> Uniform(<<k, "s">>, "0.85", "1.15"), t0 |-> Uniform(<<k, "t0">>, "-0.8", "0.8"), w |-> Uniform(<<k, "w">>, "-0.3", "0.3"), phi |-> Uniform(<<k, "phi">>, -3, 3)]
Wnd(k) == <<Uniform(<<k, "Ta">>, -20, -18), Uniform(<<k, "Tb">>, 18, 20)>>
SechQ(A, p, T, D) == LET t == Instants(T, D) IN Vec([j \in 1..D |->
   ((A \otimes p.s) \otimes SechR(p.s \otimes (t[j] \ominus p.t0))) \otimes CExp(I \otimes (p.phi \ominus ((2 \otimes p.w) \otimes (t[j] \ominus p.t0))))])
Sech2Q(nu, p, T, D) == LET t == Instants(T, D) IN Vec([j \in 1..D |-> CRe(((nu \otimes (nu \oplus 1)) \otimes Sq(p.s)) \otimes Sq(SechR(p.s \otimes (t[j] \ominus p.t0))))])
Problem(i) ==
  LET k == KeyOf(i)  n == (i - 1) % Per  p == Par(k)  kap == IF IRand(<<k, "kap">>, 2) = 0 THEN 1 ELSE -1
      pde == IF n < NseN THEN "nsev" ELSE IF n < NseN + KdvN THEN "kdvv" ELSE "manakovv"
      d == IF pde = "nsev" THEN n ELSE IF pde = "kdvv" THEN n - NseN ELSE ManIds[n - NseN - KdvN + 1]
      \* nu(nu+1) of either sign
      amp == IF pde = "kdvv" THEN (IF IRand(<<k, "neg">>, 3) = 0 THEN Uniform(<<k, "A">>, "-0.45", "-0.1") ELSE Uniform(<<k, "A">>, "0.3", "1.3"))
             ELSE IF kap = 1 THEN Uniform(<<k, "A">>, "0.25", "1.3") ELSE Uniform(<<k, "A">>, "0.25", "0.9")
      th == Uniform(<<k, "th">>, "0.2", "1.3")
  IN [k |-> k, pde |-> pde, d |-> d, kap |-> kap, amp |-> amp, th |-> th, p |-> p, T |-> Wnd(k), XI |-> FreqOf(k, 0),
      deg |-> IF pde = "nsev" THEN Degree(d) ELSE IF pde = "kdvv" THEN Degree(KdvBase(d)) ELSE ManDegree(d)]
CallOf(P, D, rich) ==
  LET base == [op |-> P.pde, T |-> RFmt(P.T), M |-> 4, XI |-> RFmt(P.XI), cs |-> 1, K |-> -1, o_discretization |-> P.d, o_contspec_type |-> 1, o_richardson_extrapolation_flag |-> rich] IN
  CASE P.pde = "nsev" -> With(base, [q |-> NFmt(SechQ(P.amp, P.p, P.T, D)), kappa |-> P.kap])
    [] P.pde = "kdvv" -> With(base, [q |-> NFmt(Sech2Q(P.amp, P.p, P.T, D))])
    [] OTHER -> LET q == SechQ(P.amp, P.p, P.T, D) IN With(base, [q |-> NFmt(VScale(CCos(P.th), q)), q2 |-> NFmt(VScale(I \otimes CSin(P.th), q)), kappa |-> P.kap])
(* bound states by Newton's method from guesses around the exact ones *)
Eigs(P) == CASE P.pde = "nsev" /\ P.kap = 1 -> LET n == RFloor(P.amp \oplus "0.4") IN Vec([j \in 1..n |-> Cx(P.p.w, P.p.s \otimes ((P.amp \oplus "0.5") \ominus j))])
             [] P.pde = "kdvv" /\ "0.1" \prec P.amp -> LET n == RFloor(P.amp \oplus "0.9") IN Vec([j \in 1..n |-> Cx(0, P.p.s \otimes ((P.amp \oplus 1) \ominus j))])
             [] OTHER -> <<>>
BsOf(P, D) == LET e == Eigs(P)  c == CallOf(P, D, 0) IN
  With([f \in DOMAIN c \ {"XI", "o_contspec_type"} |-> c[f]], [M |-> 0, cs |-> 0, K |-> Len(e), bs |-> 1, nc |-> 1, o_discspec_type |-> 0, o_bound_state_localization |-> IF P.pde = "nsev" THEN 1 ELSE 0, o_bound_state_filtering |-> 0, o_niter |-> 30,
       init |-> NFmt(Vec([j \in 1..Len(e) |-> e[j] \otimes Cx(Uniform(<<P.k, j, "g">>, "0.97", "1.03"), 0)]))])
(* bound states without guesses *)
FindOf(P, D) == LET c == BsOf(P, D) IN
  With([f \in DOMAIN c \ {"init"} |-> c[f]], [K |-> 8*D, o_bound_state_filtering |-> 2, o_grid_spacing |-> RFmt(<<"0.1" \otimes P.p.s>>),
       o_bound_state_localization |-> IF P.pde = "kdvv" THEN 1 ELSE IF IsSlow(P.d) \/ IRand(<<P.k, "loc">>, 2) = 0 \/ P.deg > 4 THEN 2 ELSE 0])
(* Newton's method is defined for every discretization of the NSE and KdV equation *)
Sess(i) == LET P == Problem(i)  D == Half(P.deg) IN
  <<With(CallOf(P, D, 0), [i |-> i, D1 |-> D]), With(CallOf(P, 2*D, 0), [i |-> i]), With(CallOf(P, 2*D, 1), [i |-> i])>>
  \o (IF Eigs(P) = <<>> THEN <<>> ELSE <<With(BsOf(P, D), [i |-> i]), With(BsOf(P, 2*D), [i |-> i])>>
     \o (IF (P.pde = "nsev" /\ IsSlow(P.d)) \/ (P.pde = "kdvv" /\ ("0.98" \prec P.amp) /\ (P.amp \prec "1.12")) THEN <<>> ELSE <<With(FindOf(P, 2*D), [i |-> i])>>))
(* ------------------------------------------------------------------------ *)
Xi(P) == LET X == P.XI IN Vec([j \in 1..4 |-> X[1] \oplus ((j - 1) \otimes ((X[2] \ominus X[1]) \oslash 3))])
Exact(P) == LET x == Xi(P)  s == P.p.s  w == P.p.w  ca == CCos(P.th)  cb == CNeg(I) \otimes CSin(P.th)
                a(l) == IF P.pde = "kdvv" THEN Sech2A(P.amp, s, l) ELSE SechA(P.amp, s, w, P.kap, l)
                b(l) == IF P.pde = "kdvv" THEN Sech2B(P.amp, s, P.p.t0, l) ELSE SechB(P.amp, s, w, P.p.t0, P.p.phi, P.kap, l) IN
  Vec([j \in 1..4 |-> a(x[j])]) \o (IF P.pde = "manakovv" THEN Vec([j \in 1..4 |-> ca \otimes b(x[j])]) \o Vec([j \in 1..4 |-> cb \otimes b(x[j])]) ELSE Vec([j \in 1..4 |-> b(x[j])]))
\* Lie splitting is of first order
OrderOf(P) == CASE P.pde = "manakovv" -> ManOrder(P.d) [] P.pde = "nsev" /\ P.d \notin {2, 3} -> Order(P.d) [] P.pde = "kdvv" /\ KdvBase(P.d) \notin {2, 3} -> Order(KdvBase(P.d)) [] OTHER -> 1
Err(P, cs) == LET x == Exact(P) IN VDist(NParse(cs), x) \oslash RMax(1, VMaxAbs(x))
(* what is cut off outside the window, and rounding *)
Cut(P) == LET d == RMin(P.T[2] \ominus P.p.t0, P.p.t0 \ominus P.T[1]) IN
  "1e-7" \oplus (IF P.pde = "kdvv" THEN Num(0) ELSE (IF P.kap = 1 THEN 6 ELSE 25) \otimes ((P.amp \oplus 1) \otimes CRe(CExp(CNeg(P.p.s \otimes d)))))
Small(P, e) == e \preceq Cut(P)
Falls(P, coarse, fine, ord) == Small(P, fine) \/ (("0.4" \otimes RPow(2, ord)) \otimes fine) \preceq coarse
Close(ord, e) == e \preceq (IF ord > 2 THEN Num("1e-2") ELSE Num("0.6"))
(* the norming constant of the j-th bound state *)
NormOf(P, j) == LET sg == IF (j % 2 = 1) = (P.pde = "nsev") THEN -1 ELSE 1 IN
  (sg \otimes CExp(CNeg((2 \otimes I) \otimes (Eigs(P)[j] \otimes P.p.t0)))) \otimes (IF P.pde = "nsev" THEN CExp(CNeg(I \otimes P.p.phi)) ELSE Num(1))
Norms(P) == Vec([j \in 1..Len(Eigs(P)) |-> NormOf(P, j)])
NErr(P, nc) == VDist(NParse(nc), Norms(P)) \oslash RMax(1, VMaxAbs(Norms(P)))
J(h, a, r) ==
  IF r.ret # 0 THEN [success |-> FALSE] ELSE
  LET P == Problem(a.i)  n == Len(h)  ord == OrderOf(P)
      bord == IF ord < 2 THEN 2 ELSE ord              \* Newton's method replaces split steps
      e == Eigs(P)
  IN CASE n = 0 -> [near |-> Close(ord, Err(P, r.contspec) \oslash 4)]
       [] n = 1 -> [near |-> Close(ord, Err(P, r.contspec)), order |-> Falls(P, Err(P, h[1].r.contspec), Err(P, r.contspec), ord)]
       [] n = 2 -> LET c == Err(P, h[1].r.contspec)  f == Err(P, h[2].r.contspec)  x == Err(P, r.contspec)  g == RPow(2, ord) IN
            [richardson |-> Small(P, x) \/ x \preceq ("1.5" \otimes RMax(f, c \oslash g))]
       [] n = 3 -> [count |-> r.Kout = Len(e)] @@ IF r.Kout # Len(e) THEN <<>> ELSE
            [bound |-> Close(bord, VDist(NParse(r.bs), e)), norm |-> Close(bord, NErr(P, r.nc))]
       [] n = 5 -> LET f == NParse(r.bs)  g == VDist(NParse(h[5].r.bs), e)  fast == a.o_bound_state_localization = 0 /\ P.pde = "nsev"
                       tol == IF fast THEN Num("0.15") ELSE (2 \otimes g) \oplus "1e-6"     \* roots of a polynomial, not refined
                   IN [count |-> IF fast THEN r.Kout >= Len(e) ELSE r.Kout = Len(e),
                       found |-> \A j \in 1..Len(e) : \E m \in 1..Len(f) : CAbs(f[m] \ominus e[j]) \preceq tol]
       [] n = 4 -> [count |-> r.Kout = Len(e)] @@ IF r.Kout # Len(e) \/ h[4].r.Kout # Len(e) THEN <<>> ELSE
            [bound |-> Falls(P, VDist(NParse(h[4].r.bs), e), VDist(NParse(r.bs), e), bord),
             norm |-> Falls(P, NErr(P, h[4].r.nc), NErr(P, r.nc), bord)]
=============================================================================
