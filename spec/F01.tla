-------------------------------- MODULE F01 ---------------------------------
(* Inversion of continuous spectra.  A signal is chosen, its continuous      *)
(* spectrum under the discretization is evaluated here on the frequencies    *)
(* prescribed by the library, and the inverse transform must return the      *)
(* signal.  Also: the prescribed frequencies themselves, and spectra in the  *)
(* delay domain that belong to no chosen signal, where the spectrum of the   *)
(* returned signal is evaluated.                                             *)
EXTENDS Flow, Nse, Signals
N == Tier(640, 6400)
KeyOf(i) == <<Seed, "F01", i>>
MODAL == 0
(* z = exp(2i xi h) runs over the M-th roots of unity, ending at -1 *)
XiLast(h) == Pi \oslash (2 \otimes h)
XiFirst(h, M) == LET m == (M \div 2) + 1  th == (IF 2*m > M THEN Num(m - M) ELSE Num(m)) \oslash M IN (Pi \otimes th) \oslash h
Freqs(h, M) == Grid(<<XiFirst(h, M), XiLast(h)>>, M)
(* coefficients over one period of frequencies of a function that is, up to  *)
(* the factor exp(2i xi c), a polynomial in exp(2i xi h)                     *)
Coeffs(f(_), c, h, n) == LET xi(k) == ((k - 1) \otimes Pi) \oslash (n \otimes h) IN
  VScale(1 \oslash n, VDft(Vec([k \in 1..n |-> f(xi(k)) \otimes CExp((2 \otimes (I \otimes c)) \otimes xi(k))]), -1))
(* and back, keeping the first coefficients only *)
Series(co, c, h, x) == CExp(CNeg((2 \otimes (I \otimes c)) \otimes x)) \otimes PEval(Reversed(co), CExp((2 \otimes (I \otimes h)) \otimes x))
Rho(pr, x) == LET ab == AB(pr, Num(x)) IN ab[2] \oslash ab[1]
Sig(k, D, top, d, h) ==
  LET raw == NoisyPulse(k, D, 1)
      s == Fold(LAMBDA acc, x : acc \oplus CAbs(x), Num(0), raw) \otimes h
      want == Uniform(<<k, "area">>, "0.1", top)
      lim == IF d = MODAL THEN "0.6" ELSE 2
      sc == RMin(want \oslash s, lim \oslash (VMaxAbs(raw) \otimes h))
  IN VScale(sc, raw)
Window(k, kind) == IF kind = "B_OF_TAU" \/ IRand(<<k, "symm">>, 2) = 0 THEN LET w == Uniform(<<k, "w">>, 1, 6) IN <<CNeg(w), w>> ELSE LET a == Uniform(<<k, "a">>, -6, 3) IN <<a, a \oplus Uniform(<<k, "b">>, 1, 9)>>
Kinds == <<"XI", "REFL", "REFL", "B_OF_XI", "B_OF_XI", "B_OF_TAU", "ITER", "TAU">>
Base(k, kind) ==
  LET D == PickSeq(<<k, "D">>, IF kind = "XI" THEN <<2, 3, 5, 16, 31, 100, 1024>> ELSE IF Thorough THEN <<2, 4, 8, 16, 32, 64>> ELSE <<2, 4, 8, 16, 32>>)
  IN [D |-> D, M |-> IF kind = "XI" THEN PickSeq(<<k, "M">>, <<1, 2, 3, 4, 7, 16, 33, 256>>) ELSE IF kind \in {"B_OF_TAU", "TAU", "ITER"} THEN D ELSE D*PickSeq(<<k, "M">>, <<1, 2, 3, 4>>),
      kap |-> IF kind = "ITER" THEN -1 ELSE PickSeq(<<k, "kap">>, <<1, -1>>), d |-> PickSeq(<<k, "d">>, <<4, 0>>), T |-> Window(k, IF kind = "TAU" THEN "B_OF_TAU" ELSE kind)]
Call(k, kind) ==
  LET b == Base(k, kind)  D == b.D  M == b.M  h == StepSize(b.T, D)
      q == Sig(k, D, IF kind = "ITER" THEN Num("0.6") ELSE IF b.kap = 1 THEN Num(IF kind = "REFL" THEN "1.4" ELSE "1.1") ELSE Num("1.6"), b.d, h)  pr == NseProblem(b.d, q, b.T, b.kap)
      n == 32*D
      rho(x) == Rho(pr, x)  bb(x) == AB(pr, Num(x))[2]
      xs == Freqs(h, M)
      cut == SubSeq(Coeffs(rho, b.T[2], h, n), 1, D)
      half(j, x) == IF j \in {1, D} THEN 2 \otimes x ELSE x
      (* b = sum over the samples of 2h B exp(-2i xi t) with half weights at the ends *)
      tau == Reversed(SubSeq(Coeffs(bb, b.T[2], h, n), 1, D))
      free == Vec([j \in 1..D |-> (Uniform(<<k, "free">>, "0.1", "0.7") \oslash ((2*D) \otimes h)) \otimes Cx(Uniform(<<k, j, 1>>, -1, 1), Uniform(<<k, j, 2>>, -1, 1))])
      cs == CASE kind = "REFL" -> Vec([j \in 1..M |-> Series(cut, b.T[2], h, xs[j])])
              [] kind = "ITER" -> Vec([j \in 1..M |-> rho(xs[j])])
              [] kind = "B_OF_XI" -> Vec([j \in 1..M |-> bb(xs[j])])
              [] kind = "B_OF_TAU" -> Vec([j \in 1..D |-> half(j, tau[j]) \oslash (2 \otimes h)])
              [] OTHER -> free
  IN [op |-> "inverse", kind |-> kind, D |-> D, T |-> RFmt(b.T), M |-> M, kappa |-> b.kap, contspec |-> NFmt(cs), want |-> NFmt(IF kind = "TAU" THEN <<Num(0)>> ELSE q),
      o_discretization |-> b.d, o_oversampling_factor |-> PickSeq(<<k, "os">>, <<8, 16, 64>>), o_max_iter |-> 200,
      o_contspec_type |-> CASE kind \in {"REFL", "ITER"} -> 0 [] kind = "B_OF_XI" -> 1 [] OTHER -> 2,
      o_contspec_inversion_method |-> CASE kind = "ITER" -> 2 [] kind = "REFL" -> IRand(<<k, "meth">>, 2) [] OTHER -> 0] @@
     (IF kind \in {"B_OF_TAU", "TAU"} THEN <<>> ELSE [XI |-> RFmt(<<XiFirst(h, M), XiLast(h)>>)])
Sess(i) ==
  LET k == KeyOf(i)  kind == Kinds[1 + (i % Len(Kinds))] IN
  IF kind = "XI" THEN LET b == Base(k, kind) IN <<[op |-> "inverse_XI", D |-> b.D, T |-> RFmt(b.T), M |-> b.M, dis |-> b.d]>>
  ELSE LET c == Call(k, kind) IN <<c, [op |-> "inverse_XI", D |-> c.D, T |-> c.T, M |-> c.M, dis |-> c.o_discretization]>>
(* ------------------------------------------------------------------------ *)
J(h, a, r) ==
  IF r.ret # 0 THEN [success |-> FALSE]
  ELSE IF a.op = "inverse_XI" THEN
    LET T == NParse(a.T)  e == StepSize(T, a.D)  XI == NParse(r.XI)  top == XiLast(e) IN
    [first |-> CAbs(XI[1] \ominus XiFirst(e, a.M)) \preceq ("1e-12" \otimes top), last |-> CAbs(XI[2] \ominus top) \preceq ("1e-12" \otimes top), guard |-> r.guard = 1]
  ELSE
    LET q == NParse(r.q)  want == NParse(a.want)  T == NParse(a.T)  e == StepSize(T, a.D) IN
    [guard |-> r.guard = 1, length |-> Len(q) = a.D] @@
    (IF a.kind = "TAU" THEN
       LET pr == NseProblem(a.o_discretization, q, T, a.kappa)  B == NParse(a.contspec)  t == Instants(T, a.D)  xs == Freqs(e, a.D)
           w(j) == IF j \in {1, a.D} THEN e ELSE 2 \otimes e
           b(x) == VSum(Vec([j \in 1..a.D |-> (w(j) \otimes B[j]) \otimes CExp(CNeg((2 \otimes (I \otimes t[j])) \otimes x))]))
       IN [spectrum |-> \A j \in 1..a.D : CAbs(AB(pr, xs[j])[2] \ominus b(xs[j])) \preceq "1e-8"]
     ELSE [signal |-> VDist(q, want) \preceq ((IF a.kind = "ITER" THEN Num("1e-4") ELSE IF a.kind # "REFL" THEN Num("1e-7") ELSE Num("1e-11")) \otimes (VMaxAbs(want) \oplus (1 \oslash e)))])
=============================================================================
