-------------------------------- MODULE D01 ---------------------------------
(* KdV continuous spectrum equals the scattering data of the scheme.         *)
EXTENDS Flow, Kdv, Signals
N == Tier(448, 3360)
Preserving == {"BO","CF4_2","CF4_3","ES4","TES4"}
(* interpolation of an even number of real samples is not real *)
Keeps(a) == KdvName(a.o_discretization) \in Preserving /\ (KdvName(a.o_discretization) \in {"CF4_2","CF4_3"} => Len(NParse(a.q)) % 2 = 1)
RealPulse(key, D, amp) == Vec([j \in 1..D |->
   LET x == ((2*j - D - 1) \oslash D)  env == CExp(CNeg(Sq((2 \otimes x) \oplus "0.2")))
   IN (amp \otimes env) \otimes (Uniform(<<key, j, 1>>, "0.7", "1.3") \oplus (Uniform(<<key, "n">>, -1, 1) \otimes x))])
RealPeculiar(k, v) == LET w == Peculiar(k, v) IN IF \A j \in 1..Len(w) : CEq(CIm(w[j]), 0) THEN w ELSE v
Call1(i) ==
  LET k == <<Seed, "D01", i>>
      d == (i - 1) % 56
      sz == Sizes(k, i, Degree(KdvBase(d)), Up(KdvBase(d)))  D == sz[1]  M == sz[2]
      t0 == Uniform(<<k, "T0">>, -4, 2)  wid == Uniform(<<k, "w">>, "0.5", 6)
      x0 == Uniform(<<k, "X0">>, "0.1", 2)  xw == Uniform(<<k, "xw">>, "0.2", 4)
      \* every third grid lies on both sides of zero (missing it), every third is negative
      g == CASE i % 3 = 0 -> <<x0, x0 \oplus xw>> [] i % 3 = 1 -> <<CNeg(x0 \oplus xw), CNeg(x0)>>
             [] OTHER -> IF M % 2 = 0 THEN <<CNeg(x0), x0>> ELSE <<CNeg(x0), (2 \otimes x0) \oplus "0.37">>
  IN [op |-> "kdvv", q |-> NFmt(RealPeculiar(k, RealPulse(k, D, Uniform(<<k, "amp">>, "-1.5", "1.5")))), T |-> RFmt(<<t0, t0 \oplus wid>>), M |-> M, XI |-> RFmt(g),
      cs |-> 1, K |-> -1, o_discretization |-> d, o_contspec_type |-> 2, o_normalization_flag |-> 1]
Sess(i) == LET c == Call1(i)  X == NParse(c.XI) IN
  <<c, With(c, [o_contspec_type |-> 0]), With(c, [o_contspec_type |-> 1, o_normalization_flag |-> 0]), With(c, [XI |-> RFmt(<<CNeg(X[2]), CNeg(X[1])>>)])>>
KGrid(a) == LET XI == NParse(a.XI) IN Vec([j \in 1..a.M |-> IF j = 1 THEN XI[1] ELSE XI[1] \oplus ((j - 1) \otimes ((XI[2] \ominus XI[1]) \oslash (a.M - 1)))])
KLayout(type, ab) ==
  LET M == Len(ab)
      rho == Vec([j \in 1..M |-> ab[j][2] \oslash ab[j][1]])  a == Vec([j \in 1..M |-> ab[j][1]])  b == Vec([j \in 1..M |-> ab[j][2]])
  IN CASE type = 0 -> rho [] type = 1 -> a \o b [] type = 2 -> rho \o a \o b
Expected(a) == LET pr == KdvProblem(a.o_discretization, NParse(a.q), NParse(a.T))  g == KGrid(a) IN
  KLayout(a.o_contspec_type, Vec([j \in 1..a.M |-> KdvAB(pr, g[j])]))
J(h, a, r) ==
  LET cs == NParse(r.contspec)  M == a.M  n == Len(h) IN
  [success |-> r.ret = 0,
   scattering_data |-> r.ret = 0 => VNear(cs, Expected(a), "1e-8"),
   conservation |-> (r.ret = 0 /\ a.o_contspec_type = 2 /\ Keeps(a)) =>
       \A j \in 1..M : Near(Sq(CAbs(cs[M + j])) \ominus Sq(CAbs(cs[2*M + j])), 1, "1e-8" \otimes Sq(VMaxAbs(cs) \oplus 1)),
   reality |-> (r.ret = 0 /\ n = 3 /\ M > 1 /\ h[1].r.ret = 0 /\ Keeps(a)) =>
       \A p \in 2..3 : VNear(Part(cs, p, M), Reversed(ConjAll(Part(NParse(h[1].r.contspec), p, M))), "1e-7")]
=============================================================================
