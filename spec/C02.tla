-------------------------------- MODULE C02 ---------------------------------
(* Symmetries of a period: what happens to the main and the auxiliary        *)
(* spectrum when the signal is multiplied by a constant phase, modulated,    *)
(* scaled, moved, rotated by some samples, reversed or conjugated.           *)
EXTENDS Flow, Floquet
N == Tier(320, 3200)
KeyOf(i) == <<Seed, "C02", i>>
(* sum of substeps of both kinds, so that reversing a period only reorders it *)
Reversible == {0, 1, 2, 3, 4, 5, 6, 9, 10, 11, 14, 15}
Local == {26, 27}                  \* derivatives at the ends of the period are one-sided
Resampled == {20, 21, 22, 23, 24, 25, 27}   \* the highest frequency of an even number of samples has no mirror image
Alpha(k) == Uniform(<<k, "alpha">>, -3, 3)
Len2(a) == Len(NParse(a.q))
MapQ(a, f(_)) == LET q == NParse(a.q) IN NFmt(Vec([j \in 1..Len(q) |-> f(q[j])]))
GuessesOf(a, fld, f(_)) == IF fld = "init" THEN LET u == NParse(a.init) IN NFmt(Vec([j \in 1..Len(u) |-> f(u[j])]))
                     ELSE LET u == NParse(a.inita) IN NFmt(Vec([j \in 1..Len(u) |-> f(u[j])]))
Guesses(a, c, f(_)) == IF Has(a, "init") THEN With(c, [init |-> GuessesOf(a, "init", f), inita |-> GuessesOf(a, "inita", f)]) ELSE c
(* the images of a call *)
ByPhase(k, a) == LET u == CExp(I \otimes Alpha(k))  g(x) == x \otimes u IN With(a, [q |-> MapQ(a, g), image |-> "phase"])
Modulated(k, a) ==
  LET th == Uniform(<<k, "th">>, -4, 4)  q == NParse(a.q)  T == NParse(a.T)  s == th \oslash (2 \otimes (T[2] \ominus T[1]))  b == NParse(a.o_bounding_box)
      g(x) == x \ominus s
  IN Guesses(a, With(a, [q |-> NFmt(Ramp(q, T, th)), phase |-> RFmt(<<NParse(a.phase)[1] \oplus th>>), move |-> RFmt(<<CNeg(s)>>), image |-> "modulated",
                         o_bounding_box |-> RFmt(<<b[1] \ominus s, b[2] \ominus s, b[3], b[4]>>)]), g)
Rescaled(k, a) ==
  LET s == Uniform(<<k, "s">>, "0.4", "2.5")  T == NParse(a.T)  b == NParse(a.o_bounding_box)  f(x) == x \oslash s IN
  Guesses(a, With(a, [q |-> MapQ(a, f), T |-> RFmt(VScale(s, T)), scale |-> RFmt(<<1 \oslash s>>), o_bounding_box |-> RFmt(VScale(1 \oslash s, b)), image |-> "scaled"]), f)
Moved(k, a) == LET T == NParse(a.T)  u == Uniform(<<k, "tau">>, -6, 6) IN With(a, [T |-> RFmt(<<T[1] \oplus u, T[2] \oplus u>>), image |-> "moved"])
(* the samples which leave on one side come back with the phase of a period  *)
Rotated(k, a) ==
  LET q == NParse(a.q)  D == Len(q)  T == NParse(a.T)  h == (T[2] \ominus T[1]) \oslash D  m == 1 + IRand(<<k, "rot">>, D - 1)
      ph == CExp(I \otimes NParse(a.phase)[1])
  IN With(a, [q |-> NFmt(Vec([j \in 1..D |-> IF j + m <= D THEN q[j + m] ELSE ph \otimes q[j + m - D]])),
              T |-> RFmt(<<T[1] \oplus (m \otimes h), T[2] \oplus (m \otimes h)>>), as |-> 0, M |-> 0, image |-> "rotated"])
Conjugated(a) ==
  LET b == NParse(a.o_bounding_box)  f(x) == CConj(x)  g(x) == CNeg(CConj(x)) IN
  Guesses(a, With(a, [q |-> MapQ(a, f), phase |-> RFmt(<<CNeg(NParse(a.phase)[1])>>), o_bounding_box |-> RFmt(<<CNeg(b[2]), CNeg(b[1]), b[3], b[4]>>), mirror |-> "conj", image |-> "conjugated"]), g)
(* the main spectrum is its own mirror image with respect to the real axis    *)
Backwards(a) ==
  LET q == NParse(a.q)  T == NParse(a.T)  b == NParse(a.o_bounding_box)  g(x) == CNeg(CConj(x)) IN
  Guesses(a, With(a, [q |-> NFmt(Reversed(q)), phase |-> RFmt(<<CNeg(NParse(a.phase)[1])>>), o_bounding_box |-> RFmt(<<CNeg(b[2]), CNeg(b[1]), b[3], b[4]>>), mirror |-> "conj",
           as |-> 0, M |-> 0, image |-> "reversed"]), g)
(* ------------------------------------------------------------- sessions *)
Start(k, i) ==
  CASE i % 4 = 0 -> LET s == GridSess(k) IN s[2]
    [] i % 4 = 1 -> LET s == AllSess(k) IN IF IRand(<<k, "f">>, 2) = 0 THEN With(s[2], [o_filtering |-> 1]) ELSE s[2]
    [] i % 4 = 2 -> With(Fine(k), [o_localization |-> PickSeq(<<k, "lo">>, <<0, 3>>), o_max_evals |-> PickSeq(<<k, "ev">>, <<0, 60>>), o_tol |-> "1e-12"])
    [] i % 4 = 3 -> LET s == NewtonSess(k) IN With(s[2], [o_tol |-> "1e-12"])
Sess(i) ==
  LET k == KeyOf(i)  a0 == Start(k, i)  d == a0.o_discretization
      \* rotations are multiples of the subsampling
      a == a0
      sub == i % 4 = 1 /\ DsubOf(a) # Len2(a)
  IN <<a, ByPhase(k, a), Modulated(k, a), Rescaled(k, a), Moved(k, a)>>
     \o (IF d \in Local \/ sub THEN <<>> ELSE <<Rotated(k, a)>>)
     \o (IF d \in Resampled \/ (d = 0 /\ sub) THEN <<>> ELSE <<Conjugated(a)>>)
     \o (IF d \in Reversible /\ ~sub THEN <<Backwards(a)>> ELSE <<>>)
(* ------------------------------------------------------------- relation *)
Image(a, u) ==
  LET m == IF Has(a, "move") THEN NParse(a.move)[1] ELSE Num(0)  s == IF Has(a, "scale") THEN NParse(a.scale)[1] ELSE Num(1)
      mir(x) == IF ~Has(a, "mirror") THEN x ELSE CNeg(CConj(x))
  IN Vec([j \in 1..Len(u) |-> mir((s \otimes u[j]) \oplus m)])
(* points are compared away from the edges of the boxes, and from the ends   *)
(* of the region in which the variable of the polynomials is resolved        *)
Resolved(a, co, e) ==
  LET b == BoxOf(a, co.h)  m == 2 \oslash DegOf(a.o_discretization)  re == Pi \oslash (m \otimes co.h)  im == 7 \oslash (m \otimes co.h)
  IN Grow(<<RMax(b[1], CNeg(re)), RMin(b[2], re), RMax(b[3], CNeg(im)), RMin(b[4], im)>>, CNeg(e))
(* Refined points are not compared: Newton steps started between two zeros    *)
(* which are close to each other depend on rounding errors (C01 judges them). *)
J(h, a, r) ==
  IF r.ret # 0 THEN [success |-> (Len(h) > 0 /\ h[1].r.ret = r.ret) \/ (Len(h) = 0 /\ a.o_localization = 2 /\ LET g == GridStep(a, Whole(a)) IN g.hi \preceq g.lo)]
  ELSE IF Len(h) = 0 THEN [success |-> TRUE]
  ELSE LET r0 == h[1].r IN IF r0.ret # 0 THEN [success |-> FALSE] ELSE
  LET sc == IF Has(a, "scale") THEN RMax(1, NParse(a.scale)[1]) ELSE Num(1)
      newton == a.o_localization = 1
      grid == a.o_localization = 2
      pr == Whole(a)  co == IF newton \/ grid THEN pr ELSE Coarse(a)
      mv == Move(a)
      e == IF a.o_localization \in {2, 3} THEN RMax("1e-3" \otimes sc, 3 \otimes GridStep(a, pr).st) ELSE "1e-3" \otimes sc
      b == IF newton THEN Grow(BoxOf(a, co.h), CNeg(e)) ELSE Resolved(a, co, e)
      safe(x) == LET y == x \ominus mv IN Inside(b, y)
      refined == a.o_localization \in {0, 3} /\ Get(a, "o_max_evals", 0) > 0
      m0 == Image(a, Num2(r0.ms))  a0 == Image(a, Num2(r0.as))  ms == Num2(r.ms)  as == Num2(Str(r, "as"))
      tol == "1e-4" \otimes sc
      sub(u, w) == \A j \in 1..Len(u) : safe(u[j]) => (Len(w) > 0 /\ VNearest(w, u[j]) \preceq tol)
      dist(u, w) == Len(u) = Len(w) /\ (Len(u) = 0 \/ VDist(u, w) \preceq tol)
  IN [main |-> refined \/ (sub(ms, m0) /\ sub(m0, ms)),
      mainCount |-> (a.o_localization \in {0, 3} /\ (refined \/ a.o_filtering # 0)) \/ Len(ms) = Len(m0) \/ \E j \in 1..Len(ms) : ~safe(ms[j]) \/ \E m \in 1..Len(m0) : ~safe(m0[m]),
      mainOrder |-> ~newton \/ Has(a, "mirror") \/ dist(ms, m0)] @@
     (IF a.as = 0 THEN <<>> ELSE [aux |-> refined \/ (sub(as, a0) /\ sub(a0, as)), auxOrder |-> ~newton \/ Has(a, "mirror") \/ dist(as, a0)])
=============================================================================
