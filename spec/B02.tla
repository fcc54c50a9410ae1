-------------------------------- MODULE B02 ---------------------------------
(* The symmetries of the equation, as relations between calls of a session. *)
EXTENDS Flow, Nse, Signals
Kinds == 840
N == Tier(Kinds + 28, 10*Kinds + 28)
Unitary == {"BO","CF4_2","CF4_3","ES4","TES4","2SPLIT2_MODAL","2SPLIT1A","2SPLIT1B","2SPLIT2A","2SPLIT2B"}
Conjugable == {DisName(d) : d \in AllDis} \ {"CF5_3","CF6_4"}
Reversible == {"BO","CF4_2","CF4_3","ES4","TES4","2SPLIT2_MODAL","2SPLIT2A","2SPLIT2B"}
Amps == <<"0.9", "1.2", "1.9", "2.1">>
Base(i) ==
  LET k == <<Seed, "B02", i>>
      d == (i - 1) % 28
      D == PickSeq(<<k, "D">>, IF Degree(d) > 24 THEN <<27, 29>> ELSE IF Up(d) = 1 THEN <<33, 37, 41, 45, 40>> ELSE <<33, 37, 41, 45>>)  \* interpolation of an even number of samples is not symmetric under conjugation
      kap == IF IRand(<<k, "kap">>, 3) = 0 THEN -1 ELSE 1
      A == PickSeq(<<k, "A">>, Amps)  s == Uniform(<<k, "s">>, "0.8", "1.3")  w == Uniform(<<k, "w">>, "-0.4", "0.4")
      t0 == Uniform(<<k, "t0">>, "-0.7", "0.7")
      T == <<CNeg(7 \oslash s), Uniform(<<k, "T1">>, "6.5", "7.5") \oslash s>>
      q0 == Sech(T, D, A, s, t0, w, Uniform(<<k, "phi">>, -3, 3))
      q == IF kap = 1 THEN q0 ELSE NoisyPulse(k, D, Uniform(<<k, "amp">>, "0.2", IF Degree(d) > 6 THEN "0.5" ELSE "1.2"))
      e == SechEigs(A, s, w)
      x0 == Uniform(<<k, "X0">>, -2, 0)
      slow == IsSlow(d)
      loc == IF slow \/ Degree(d) > 12 \/ IRand(<<k, "loc">>, 2) = 0 THEN 1 ELSE IF Degree(d) <= 4 THEN 0 ELSE 2
      c == [op |-> "nsev", q |-> NFmt(q), T |-> RFmt(T), M |-> 4, XI |-> RFmt(<<x0, x0 \oplus "2.5">>), cs |-> 1, kappa |-> kap,
            o_discretization |-> d, o_contspec_type |-> 2, o_normalization_flag |-> IRand(<<k, "nf">>, 2), sym |-> "base"]
  IN IF kap = -1 THEN With(c, [K |-> -1])
     ELSE LET n == Len(e)
              cc == With(c, [K |-> IF loc = 1 THEN n ELSE 60*D, bs |-> 1, nc |-> 1, o_discspec_type |-> 2, o_bound_state_localization |-> loc,
                             o_bound_state_filtering |-> 3, o_niter |-> 30,
                             o_bounding_box |-> RFmt(<<w \ominus (s \otimes "0.4"), w \oplus (s \otimes "0.4"), s \otimes "0.25", s \otimes "2.4">>)])
          IN IF loc = 1 THEN With(cc, [init |-> NFmt(e)]) ELSE cc
Has1(c) == Has(c, "init")
Box4(c) == NParse(c.o_bounding_box)
Sess(i) ==
  IF i > Kinds*Tier(1, 10) THEN
    LET d == (i - 1) % 28 k == <<Seed, "B02z", i>> D == PickSeq(<<k, "D">>, <<4, 8, 15>>) kap == IF i % 2 = 0 THEN 1 ELSE -1
        c == [op |-> "nsev", q |-> NFmt([j \in 1..D |-> 0]), T |-> "-1 2", M |-> 3, XI |-> "-2 3", cs |-> 1, kappa |-> kap, o_discretization |-> d, o_contspec_type |-> 2, sym |-> "zero", K |-> -1]
    IN <<IF IsSlow(d) \/ kap = -1 THEN c ELSE With(c, [K |-> 120*D, bs |-> 1, nc |-> 1, o_bound_state_localization |-> IF Degree(d) <= 4 THEN 0 ELSE 2, o_bound_state_filtering |-> 2])>>
  ELSE
  LET b == Base(i)  k == <<Seed, "B02t", i>>  n == DisName(b.o_discretization)
      q == NParse(b.q) T == NParse(b.T) X == NParse(b.XI)
      phi == Uniform(<<k, "phi">>, -3, 3)  tau == Uniform(<<k, "tau">>, -2, 2)  c == Uniform(<<k, "c">>, "0.5", "2")
      bound == Has(b, "o_bounding_box")
      init(r, f(_)) == IF Has1(b) THEN With(r, [init |-> NFmt(Map(NParse(b.init), f))]) ELSE r
      Same(x) == x  Mul(x) == c \otimes x  Mir(x) == CNeg(CConj(x))
      phase == With(b, [q |-> NFmt(VScale(CExp(I \otimes phi), q)), sym |-> "phase", p |-> RFmt(<<phi>>)])
      shift == With(b, [T |-> RFmt(<<T[1] \oplus tau, T[2] \oplus tau>>), sym |-> "shift", p |-> RFmt(<<tau>>)])
      scale0 == With(b, [q |-> NFmt(VScale(c, q)), T |-> RFmt(<<T[1] \oslash c, T[2] \oslash c>>), XI |-> RFmt(<<c \otimes X[1], c \otimes X[2]>>), sym |-> "scale", p |-> RFmt(<<c>>)])
      scale == IF bound THEN init(With(scale0, [o_bounding_box |-> RFmt(VScale(c, Box4(b)))]), Mul) ELSE scale0
      conj0 == With(b, [q |-> NFmt(ConjAll(q)), XI |-> RFmt(<<CNeg(X[2]), CNeg(X[1])>>), sym |-> "conj"])
      conj == IF bound THEN LET x == Box4(b) IN init(With(conj0, [o_bounding_box |-> RFmt(<<CNeg(x[2]), CNeg(x[1]), x[3], x[4]>>)]), Mir) ELSE conj0
      rev == With(b, [q |-> NFmt(Reversed(ConjAll(q))), T |-> RFmt(<<CNeg(T[2]), CNeg(T[1])>>), sym |-> "rev"])
  IN <<b, phase, shift, scale>> \o (IF n \in Conjugable THEN <<conj>> ELSE <<>>) \o (IF n \in Reversible THEN <<rev>> ELSE <<>>)
(* what the relation makes of a value of a or b at xi and of eigenvalue,     *)
(* norming constant, residue                                                 *)
XiOf(a) == Vec(Grid(NParse(a.XI), a.M))
ImgA(a, v) == IF a.sym = "conj" THEN Reversed(ConjAll(v)) ELSE v
ImgB(a, v) == LET X == XiOf(a) IN
  CASE a.sym = "phase" -> VScale(CExp(CNeg(I \otimes NParse(a.p)[1])), v)
    [] a.sym = "shift" -> Vec([j \in 1..a.M |-> v[j] \otimes CExp(CNeg((I \otimes (2 \otimes X[j])) \otimes NParse(a.p)[1]))])
    [] a.sym = "scale" -> v
    [] a.sym = "conj" -> Reversed(ConjAll(v))
    [] a.sym = "rev" -> ConjAll(v)
ImgEig(a, l) == CASE a.sym = "scale" -> NParse(a.p)[1] \otimes l [] a.sym = "conj" -> CNeg(CConj(l)) [] OTHER -> l
ImgNc(a, l, b) == CASE a.sym = "phase" -> b \otimes CExp(CNeg(I \otimes NParse(a.p)[1]))
   [] a.sym = "shift" -> b \otimes CExp(CNeg((I \otimes (2 \otimes l)) \otimes NParse(a.p)[1]))
   [] a.sym = "scale" -> b [] a.sym = "conj" -> CConj(b) [] a.sym = "rev" -> 1 \oslash b
ImgRes(a, l, b, res) == CASE a.sym \in {"phase", "shift"} -> (ImgNc(a, l, b) \oslash b) \otimes res
   [] a.sym = "scale" -> NParse(a.p)[1] \otimes res [] a.sym = "conj" -> CNeg(CConj(res)) [] a.sym = "rev" -> res \oslash Sq(b)
Rel(x, y, tol) == CAbs(x \ominus y) \preceq (tol \otimes CAbs(y))
Energy(a, cs) == LET A == Part(cs, 2, a.M) B == Part(cs, 3, a.M) IN
  Vec([j \in 1..a.M |-> Sq(CAbs(A[j])) \oplus (a.kappa \otimes Sq(CAbs(B[j])))])
J(h, a, r) ==
  IF r.ret # 0 THEN [success |-> FALSE]
  ELSE IF a.sym = "zero" THEN
    LET cs == NParse(r.contspec) IN
    [zero_signal |-> VNear(cs, [j \in 1..3*a.M |-> IF j \in (a.M + 1)..(2*a.M) THEN 1 ELSE 0], "1e-10"), zero_no_states |-> a.K = -1 \/ r.Kout = 0]
  ELSE IF a.sym = "base" THEN
    LET cs == NParse(r.contspec) IN
    [conservation |-> DisName(a.o_discretization) \notin Unitary \/
        VDist(Energy(a, cs), [j \in 1..a.M |-> 1]) \preceq ("1e-9" \otimes RMax(1, Sq(VMaxAbs(cs))))]
  ELSE
    LET r0 == h[1].r  cs0 == NParse(r0.contspec)  cs == NParse(r.contspec)  M == a.M
        tol == IF Degree(a.o_discretization) > 6 THEN "1e-5" ELSE "1e-8"
        \* under reversal b becomes 1/b only at zeros of a, which Newton iterates are
        zeros == a.sym # "rev" \/ Has1(a)
    IN [a_covariant |-> VNear(Part(cs, 2, M), ImgA(a, Part(cs0, 2, M)), tol),
        b_covariant |-> VNear(Part(cs, 3, M), ImgB(a, Part(cs0, 3, M)), tol),
        count |-> r.Kout = r0.Kout,
        discrete |-> a.K = -1 \/ (r.Kout = r0.Kout /\
           LET n == r.Kout  e0 == NParse(r0.bs) e == NParse(r.bs) c0 == NParse(r0.nc) c == NParse(r.nc)
           IN \A j \in 1..n : \E m \in 1..n : LET l == ImgEig(a, e0[j]) IN
                /\ Rel(e[m], l, "1e-7")
                /\ zeros => Rel(c[m], ImgNc(a, e0[j], c0[j]), "1e-5")
                /\ zeros => Rel(c[n + m], ImgRes(a, e0[j], c0[j], c0[n + j]), "1e-5"))]
=============================================================================
