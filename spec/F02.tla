-------------------------------- MODULE F02 ---------------------------------
(* Inversion of discrete spectra.  Without a continuous part the signal is   *)
(* the multi-soliton given by the linear system of the inverse problem; with *)
(* one, or on top of a given signal, it is the dressing of that signal (a    *)
(* session first inverts the continuous part alone).  The eigenfunctions of  *)
(* the signal to be dressed are those of the exponential scheme with half    *)
(* steps at both ends.  Listing the bound states in another order changes    *)
(* nothing.                                                                  *)
EXTENDS Flow, Nse, Signals
N == Tier(800, 12000)
KeyOf(i) == <<Seed, "F02", i>>
Kinds == <<"pure", "wide", "seed", "zero", "cs", "cs", "forward", "cs">>
(* -------------------------------------------------------------- solitons *)
Eta(l) == CIm(l)
Blaschke(x, ls, skip) == Fold(LAMBDA p, j : IF j = skip THEN p ELSE p \otimes ((x \ominus ls[j]) \oslash (x \ominus CConj(ls[j]))), Num(1), Vec([j \in 1..Len(ls) |-> j]))
(* derivative at ls[k] of the Blaschke product with these zeros *)
DBlaschke(ls, k) == Blaschke(ls[k], ls, k) \oslash ((2 \otimes I) \otimes Eta(ls[k]))
NormOf(ls, c, type, seed) == Vec([k \in 1..Len(ls) |-> IF type = 0 THEN c[k] ELSE (c[k] \otimes DBlaschke(ls, k)) \otimes seed[k]])
Ones(n) == Vec([j \in 1..n |-> Num(1)])
(* q = -2i sum conj(c) x with x + A conj(A) x = 1, A[j][k] = c[k]/(conj(l[j])-l[k]) *)
Direct(ls, cs) ==
  LET n == Len(ls)
      A == [j \in 1..n |-> [k \in 1..n |-> cs[k] \oslash (CConj(ls[j]) \ominus ls[k])]]
      Ac == [j \in 1..n |-> [k \in 1..n |-> CConj(A[j][k])]]
      E == [j \in 1..n |-> [k \in 1..n |-> Num(IF j = k THEN 1 ELSE 0)]]
      x == MSolve(MAdd(E, MMul(A, Ac)), Ones(n))
  IN CNeg(2 \otimes I) \otimes VSum(Vec([k \in 1..n |-> CConj(cs[k]) \otimes x[k]]))
Soliton(ls, b, t) ==
  LET at(bb, s) == Vec([k \in 1..Len(ls) |-> (bb[k] \oslash DBlaschke(ls, k)) \otimes CExp((2 \otimes (I \otimes ls[k])) \otimes s)])
      c == at(b, t)
  IN IF VMaxAbs(c) \preceq 100 THEN Direct(ls, c)
     \* reversing time inverts the norming constants
     ELSE CConj(Direct(ls, at(Vec([k \in 1..Len(b) |-> 1 \oslash b[k]]), CNeg(t))))
(* -------------------------------------------------------------- dressing *)
(* solutions at the samples, from the left and from the right edge *)
Pair(h, l, x, y) == MMul(BoStep(h \oslash 2, l, y, NseR(1, y)), BoStep(h \oslash 2, l, x, NseR(1, x)))
Waves(T, q, l) ==
  LET D == Len(q)  h == StepSize(T, D)
      st == Vec([n \in 1..(D - 1) |-> Pair(h, l, q[n], q[n + 1])])
      left == Fold(LAMBDA acc, n : Append(acc, MMul(st[n], acc[n])), << <<<<CExp(CNeg(I \otimes l) \otimes T[1])>>, <<Num(0)>>>> >>, Vec([n \in 1..(D - 1) |-> n]))
      right == Fold(LAMBDA acc, n : Append(acc, MMul(Inv2(st[D - n]), acc[n])), << <<<<Num(0)>>, <<CExp((I \otimes l) \otimes T[2])>>>> >>, Vec([n \in 1..(D - 1) |-> n]))
  IN [left |-> left, right |-> Vec([n \in 1..D |-> right[D + 1 - n]])]
Dressed(T, q, ls, b) ==
  LET K == Len(ls)  D == Len(q)
      w == Vec([k \in 1..K |-> Waves(T, q, ls[k])])
      chi(n, k) == LET u == w[k].left[n][1][1] \ominus (b[k] \otimes w[k].right[n][1][1])
                       v == w[k].left[n][2][1] \ominus (b[k] \otimes w[k].right[n][2][1])
                       s == RMax(CAbs(u), CAbs(v)) IN <<u \oslash s, v \oslash s>>
      at(n) == LET c == Vec([k \in 1..K |-> chi(n, k)])
                   M == [j \in 1..K |-> [k \in 1..K |-> ((CConj(c[j][1]) \otimes c[k][1]) \oplus (CConj(c[j][2]) \otimes c[k][2])) \oslash (ls[k] \ominus CConj(ls[j]))]]
                   x == MSolve(M, Vec([j \in 1..K |-> CConj(c[j][2])]))
               IN q[n] \ominus ((2 \otimes I) \otimes VSum(Vec([k \in 1..K |-> c[k][1] \otimes x[k]])))
  IN Vec([n \in 1..D |-> at(n)])
(* -------------------------------------------------------------- sessions *)
Perm(k, u) == LET n == Len(u)  s == IRand(<<k, "perm">>, n) IN Vec([j \in 1..n |-> u[1 + ((j - 1 + s) % n)]])
Swap(u) == Vec([j \in 1..Len(u) |-> IF j = 1 THEN u[Len(u)] ELSE IF j = Len(u) THEN u[1] ELSE u[j]])
States(k, n, lo, hi) == Perm(k, Vec([j \in 1..n |-> Cx(Uniform(<<k, j, "re">>, -1, 1), lo \oplus (((j - 1) \oplus (IF IRand(<<k, "tie">>, 5) = 0 THEN Num("0.3") ELSE Uniform(<<k, j, "im">>, 0, "0.6"))) \otimes ((hi \ominus lo) \oslash n)))]))
Consts(k, n) == Vec([j \in 1..n |-> CExp(Cx(Uniform(<<k, j, "mag">>, -3, 3), Uniform(<<k, j, "arg">>, -3, 3)))])
XiLast(h) == Pi \oslash (2 \otimes h)
Freqs(h, M) == Grid(<<(XiLast(h) \otimes (2 - M)) \oslash M, XiLast(h)>>, M)
Sess(i) ==
  LET k == KeyOf(i)  kind == Kinds[1 + (i % Len(Kinds))]
      K == IF kind = "forward" THEN 1 + IRand(<<k, "K">>, 3) ELSE 1 + IRand(<<k, "K">>, 4)
      D == IF kind = "forward" THEN 256 ELSE PickSeq(<<k, "D">>, IF kind = "cs" THEN <<16, 32, 64>> ELSE <<2, 8, 16, 32, 64>>)
      T == IF kind = "forward" THEN <<Num(-13), Num(13)>> ELSE IF kind = "wide" THEN LET a == Uniform(<<k, "a">>, -600, 100) IN <<a, a \oplus Uniform(<<k, "b">>, 20, 700)>> ELSE LET a == Uniform(<<k, "a">>, -5, 1) IN IF kind = "cs" /\ IRand(<<k, "sy">>, 2) = 0 THEN <<Num("-3.5"), Num("3.5")>> ELSE <<a, a \oplus Uniform(<<k, "b">>, 1, 6)>>
      ls == States(k, K, Num(IF kind = "forward" THEN "0.5" ELSE "0.2"), Num(IF kind = "forward" THEN "1.2" ELSE "1.6"))
      h == StepSize(T, D)
      c == [op |-> "inverse", kind |-> kind, part |-> "all", D |-> D, T |-> RFmt(T), kappa |-> 1, bs |-> NFmt(ls), nc |-> NFmt(Consts(k, K)),
            o_discretization |-> PickSeq(<<k, "d">>, <<4, 0>>), o_discspec_type |-> IF kind = "forward" THEN 0 ELSE IRand(<<k, "dt">>, 2)]
      seed == IF kind = "zero" THEN Vec([j \in 1..D |-> Num(0)]) ELSE NoisyPulse(k, D, Uniform(<<k, "sa">>, "0.2", "1.2"))
      type == IF D # 0 /\ T[1] = CNeg(T[2]) THEN IRand(<<k, "ct">>, 3) ELSE IRand(<<k, "ct">>, 2)
      M == IF type = 2 THEN D ELSE D*(1 + IRand(<<k, "M">>, 2))
      xs == Freqs(h, M)
      cs == Vec([j \in 1..M |-> IF type = 2 THEN ((Uniform(<<k, "bt">>, "0.1", "0.6") \oslash ((2*D) \otimes h)) \otimes Cx(Uniform(<<k, j, 1>>, -1, 1), Uniform(<<k, j, 2>>, -1, 1)))
                             ELSE (Uniform(<<k, "ba">>, "0.1", "0.8") \otimes CExp(CNeg(Sq(xs[j] \oslash (XiLast(h) \otimes "0.4"))))) \otimes CExp((I \otimes Uniform(<<k, "bc">>, -1, 1)) \otimes xs[j])])
      pre == IF type = 0 THEN Vec([j \in 1..M |-> cs[j] \otimes Blaschke(xs[j], ls, 0)]) ELSE cs
      cont(u) == [contspec |-> NFmt(u), M |-> M, o_contspec_type |-> type] @@ (IF type = 2 THEN <<>> ELSE [XI |-> RFmt(<<xs[1], xs[M]>>)])
      again(x) == With(x, [part |-> "order", bs |-> NFmt(Swap(ls)), nc |-> NFmt(Swap(NParse(c.nc)))])
      cc == CASE kind \in {"pure", "wide", "forward"} -> With(c, [M |-> 0])
              [] kind \in {"seed", "zero"} -> With(c, [M |-> 0, seed |-> NFmt(seed), o_contspec_inversion_method |-> 3])
              [] OTHER -> With(c, cont(cs))
  IN (IF kind = "cs" THEN <<[op |-> "inverse", kind |-> kind, part |-> "continuous", D |-> D, T |-> RFmt(T), kappa |-> 1, o_discretization |-> c.o_discretization] @@ cont(pre)>> ELSE <<>>)
     \o <<cc>> \o (IF K > 1 THEN <<again(cc)>> ELSE <<>>)
(* ------------------------------------------------------------------------ *)
Tol == Num("1e-7")
J(h, a, r) ==
  IF r.ret # 0 THEN [success |-> FALSE]
  ELSE IF a.part = "continuous" THEN [guard |-> r.guard = 1]
  ELSE
    LET q == NParse(r.q)  T == NParse(a.T)  ls == NParse(a.bs)  c == NParse(a.nc)  D == a.D  K == Len(ls)
        close(w) == VDist(q, w) \preceq (Tol \otimes (VMaxAbs(w) \oplus 1))
        old == IF a.kind = "cs" THEN NParse(h[1].r.q) ELSE IF Has(a, "seed") THEN NParse(a.seed) ELSE <<>>
        pr == NseProblem(1, old, T, 1)
        \* on top of a given signal, residues are those of the solitons alone
        factor == IF a.kind # "cs" THEN Ones(K) ELSE Vec([j \in 1..K |-> AB(pr, ls[j])[1]])
        b == NormOf(ls, c, a.o_discspec_type, factor)
        t == Instants(T, D)
        fw == NseProblem(22, q, T, 1)
    IN [guard |-> r.guard = 1, length |-> Len(q) = D] @@
       (IF a.part = "order" THEN [order |-> close(NParse(h[Len(h)].r.q))]
        ELSE IF a.kind \in {"pure", "wide", "forward", "zero"} THEN [solitons |-> close(Vec([n \in 1..D |-> Soliton(ls, b, t[n])]))]
        ELSE [dressed |-> close(Dressed(T, old, ls, b))]) @@
       (IF a.kind = "forward" /\ a.part = "all" THEN
          [zeros |-> \A j \in 1..K : CAbs(AOf(fw, ls[j])) \preceq "1e-2",
           constants |-> \A j \in 1..K : CAbs(NormConst(fw, ls[j]).b \ominus b[j]) \preceq ("0.05" \otimes CAbs(b[j]))]
        ELSE <<>>)
=============================================================================
