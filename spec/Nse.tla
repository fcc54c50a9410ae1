-------------------------------- MODULE Nse ---------------------------------
(* The nonlinear Schroedinger equation: r = -kappa conj(q), and its         *)
(* scattering data on the whole line.                                       *)
EXTENDS Akns
NseR(kappa, v) == IF kappa = 1 THEN CNeg(CConj(v)) ELSE CConj(v)
NsePrep(d, Dsub, q, h, kappa) == LET rq(j, v) == NseR(kappa, v) IN Prep(d, Len(q), Dsub, q, h, rq)
StepSize(T, D) == (T[2] \ominus T[1]) \oslash (D - 1)
Grid(XI, M) == [j \in 1..M |-> IF j = 1 THEN Num(XI[1]) ELSE XI[1] \oplus ((j - 1) \otimes ((XI[2] \ominus XI[1]) \oslash (M - 1)))]
(* a problem: everything the scattering data depend on.  T is the window of *)
(* the (possibly subsampled) samples and h their spacing.                   *)
NseProblem(d, q, T, kappa) ==
  LET h == StepSize(T, Len(q)) IN [d |-> d, h |-> h, lo |-> T[1] \ominus (h \oslash 2), hi |-> T[2] \oplus (h \oslash 2), p |-> NsePrep(d, Len(q), q, h, kappa)]
NseSub(d, q, T, kappa, Dsub) ==
  LET h == StepSize(T, Len(q))  k == SkipOf(Len(q), Dsub)  m == StepsOf(Len(q), Dsub)
      hs == h \otimes k  t2 == T[1] \oplus (h \otimes ((m - 1)*k))
  IN [d |-> d, h |-> hs, lo |-> T[1] \ominus (hs \oslash 2), hi |-> t2 \oplus (hs \oslash 2), p |-> NsePrep(d, Dsub, q, h, kappa)]
MonoOf(pr, lam) == Mono(pr.d, pr.h, lam, pr.p.q, pr.p.r)
(* v(lo) = (1,0) exp(-i lam lo)  =>  v(hi) = (a exp(-i lam hi), b exp(i lam hi)) *)
AB(pr, lam) ==
  LET m == MonoOf(pr, lam) IN
  <<m[1][1] \otimes CExp((I \otimes lam) \otimes (pr.hi \ominus pr.lo)),
    m[2][1] \otimes CExp(CNeg(I \otimes lam) \otimes (pr.hi \oplus pr.lo))>>
(* zeros, derivatives and norming constants of splitting schemes are        *)
(* computed with the exponential integrator on the same samples             *)
Refiner(d) == IF IsSlow(d) THEN d ELSE IF Up(d) = 2 THEN 22 ELSE 1
AOf(pr, lam) == AB(pr, lam)[1]
Del == Num("1e-5")
APrime(pr, lam) == (AOf(pr, lam \oplus Del) \ominus AOf(pr, lam \ominus Del)) \oslash (2 \otimes Del)
(* correction one step of Newton's method makes                             *)
NewtonStep(pr, lam) == AOf(pr, lam) \oslash APrime(pr, lam)
(* Norming constant at a zero of a: the solution (1,0)exp(-i lam lo) from    *)
(* the left edge is b times the solution (0,1)exp(i lam hi) from the right   *)
(* edge; both are compared in the middle of the window, where they are       *)
(* computed stably.                                                          *)
Inv2(m) == MScale(1 \oslash Det2(m), Mat(m[2][2], CNeg(m[1][2]), CNeg(m[2][1]), m[1][1]))
NormConst(pr, lam) ==
  LET n == Len(pr.p.q)
      st == Vec([k \in 1..n |-> Step(pr.d, pr.h, lam, pr.p.q[k], pr.p.r[k])])
      inv == Vec([k \in 1..n |-> Inv2(st[n + 1 - k])])
      el == CExp(CNeg(I \otimes lam) \otimes pr.lo)  er == CExp((I \otimes lam) \otimes pr.hi)
      \* at a zero both components give the same b; the matching point where they agree best is taken
      at(m) == LET L == MProd(SubSeq(st, 1, m))  R == MProd(SubSeq(inv, 1, n - m))
                   f1 == L[1][1] \otimes el  f2 == L[2][1] \otimes el  g1 == R[1][2] \otimes er  g2 == R[2][2] \otimes er
                   x == f1 \oslash g1  y == f2 \oslash g2
               IN [b |-> IF CAbs(g1) \prec CAbs(g2) THEN y ELSE x, err |-> CAbs(x \ominus y) \oslash RMax(CAbs(x), CAbs(y))]
      best(u, w) == IF w.err \prec u.err THEN w ELSE u
  IN Fold(best, at((5*n) \div 16), Vec([j \in 1..6 |-> at(((5 + j)*n) \div 16)]))
(* documented layout for contspec_type 0: rho, 1: a then b, 2: rho, a, b    *)
Layout(type, ab) ==
  LET M == Len(ab)
      rho == Vec([j \in 1..M |-> ab[j][2] \oslash ab[j][1]])  a == Vec([j \in 1..M |-> ab[j][1]])  b == Vec([j \in 1..M |-> ab[j][2]])
  IN CASE type = 0 -> rho [] type = 1 -> a \o b [] type = 2 -> rho \o a \o b
=============================================================================
