-------------------------------- MODULE Kdv ---------------------------------
(* The Korteweg-de Vries equation.  v solves v_t = [[-i l, q],[r, i l]] v    *)
(* with (q, r) = (u, -1) (vanilla) or (-1, u).  Scattering data refer to     *)
(* phi'' + (l^2 + u) phi = 0 with phi = A exp(-i l t) + B exp(i l t) outside *)
(* the window, phi = v2 (vanilla) or v1.                                     *)
EXTENDS Akns
KdvAll == 0 .. 55
KdvBase(d) == d % 28                 \* the scheme
Vanilla(d) == d < 28
KdvName(d) == DisName(KdvBase(d))
KdvPrep(d, Dsub, u, h) ==
  LET rq(j, v) == IF j = 1 THEN Num(-1) ELSE Num(0)
      p == Prep(KdvBase(d), Len(u), Dsub, u, h, rq)
  IN IF Vanilla(d) THEN p ELSE [q |-> p.r, r |-> p.q]
KdvStep(T, D) == (T[2] \ominus T[1]) \oslash (D - 1)
KdvProblem(d, u, T) ==
  LET h == KdvStep(T, Len(u)) IN [d |-> d, h |-> h, lo |-> T[1] \ominus (h \oslash 2), hi |-> T[2] \oplus (h \oslash 2), p |-> KdvPrep(d, Len(u), u, h)]
KdvSub(d, u, T, Dsub) ==
  LET h == KdvStep(T, Len(u))  k == SkipOf(Len(u), Dsub)  m == StepsOf(Len(u), Dsub)
      hs == h \otimes k  t2 == T[1] \oplus (h \otimes ((m - 1)*k))
  IN [d |-> d, h |-> hs, lo |-> T[1] \ominus (hs \oslash 2), hi |-> t2 \oplus (hs \oslash 2), p |-> KdvPrep(d, Dsub, u, h)]
(* coefficients (A, B) of a vector *)
ToS(d, l) == LET x == I \oslash (2 \otimes l) IN IF Vanilla(d) THEN Mat(CNeg(x), 0, x, 1) ELSE Mat(1, CNeg(x), 0, x)
FromS(d, l) == LET y == (2 \otimes I) \otimes l IN IF Vanilla(d) THEN Mat(y, 0, 1, 1) ELSE Mat(1, 1, 0, CNeg(y))
KdvMono(pr, l) == MMul(ToS(pr.d, l), MMul(Mono(KdvBase(pr.d), pr.h, l, pr.p.q, pr.p.r), FromS(pr.d, l)))
KdvAB(pr, l) ==
  LET m == KdvMono(pr, l) IN
  <<m[1][1] \otimes CExp((I \otimes l) \otimes (pr.hi \ominus pr.lo)),
    m[2][1] \otimes CExp(CNeg(I \otimes l) \otimes (pr.hi \oplus pr.lo))>>
KdvA(pr, l) == KdvAB(pr, l)[1]
KdvAPrime(pr, l) == LET e == "1e-4" \otimes RMin("0.1", CAbs(l)) IN     \* a has a pole at zero
  (KdvA(pr, l \oplus e) \ominus KdvA(pr, l \ominus e)) \oslash (2 \otimes e)
KdvRefiner(d) == (IF IsSlow(KdvBase(d)) THEN KdvBase(d) ELSE IF Up(KdvBase(d)) = 2 THEN 22 ELSE 1) + (IF Vanilla(d) THEN 0 ELSE 28)
KInv2(m) == MScale(1 \oslash Det2(m), Mat(m[2][2], CNeg(m[1][2]), CNeg(m[2][1]), m[1][1]))
KdvNormConst(pr, l) ==
  LET n == Len(pr.p.q)
      st == Vec([k \in 1..n |-> Step(KdvBase(pr.d), pr.h, l, pr.p.q[k], pr.p.r[k])])
      inv == Vec([k \in 1..n |-> KInv2(st[n + 1 - k])])
      F == FromS(pr.d, l)
      el == CExp(CNeg(I \otimes l) \otimes pr.lo)  er == CExp((I \otimes l) \otimes pr.hi)
      at(m) == LET L == MMul(MProd(SubSeq(st, 1, m)), F)  R == MMul(MProd(SubSeq(inv, 1, n - m)), F)
                   f1 == L[1][1] \otimes el  f2 == L[2][1] \otimes el  g1 == R[1][2] \otimes er  g2 == R[2][2] \otimes er
                   x == f1 \oslash g1  y == f2 \oslash g2
               IN [b |-> IF CAbs(g1) \prec CAbs(g2) THEN y ELSE x, err |-> CAbs(x \ominus y) \oslash RMax(CAbs(x), CAbs(y))]
      best(u, w) == IF w.err \prec u.err THEN w ELSE u
  IN Fold(best, at((5*n) \div 16), Vec([j \in 1..6 |-> at(((5 + j)*n) \div 16)]))
=============================================================================
