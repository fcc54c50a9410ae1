-------------------------------- MODULE G02 ---------------------------------
(* Evaluation of polynomials (coefficients from the highest power down) on   *)
(* spirals and at points, and spectral factorization.                        *)
EXTENDS Flow, Num
N == Tier(2400, 24000)
KeyOf(i) == <<Seed, "G02", i>>
Coefs(k, n) == Vec([j \in 1..n |-> Cx(Uniform(<<k, j, "r">>, -1, 1), Uniform(<<k, j, "i">>, -1, 1))])
Polar(r, phi) == r \otimes CExp(I \otimes phi)
Norm1(p) == VSum([j \in 1..Len(p) |-> CAbs(p[j])])
(* ------------------------------------------------------------ sessions *)
ChirpSess(k) ==
  LET deg == IF IRand(<<k, "big">>, 6) = 0 THEN 60 + IRand(<<k, "deg">>, 140) ELSE IRand(<<k, "deg">>, 40)
      M == IF IRand(<<k, "bigM">>, 6) = 0 THEN 50 + IRand(<<k, "M">>, 150) ELSE 1 + IRand(<<k, "M">>, 40)
      L == 1 + (IF deg > M THEN deg ELSE M)
      (* the spiral may shrink or grow, but not so far that W^(n^2/2) leaves the accurate range *)
      kind == IRand(<<k, "kind">>, 3)
      A == Polar(RPow(2, Uniform(<<k, "A">>, -1, 1) \oslash (1 + deg)), Uniform(<<k, "Aphi">>, -4, 4))
      W == IF kind = 0 THEN CExp((I \otimes Uniform(<<k, "W">>, -4, 4)))
           ELSE IF kind = 1 THEN Polar(RPow(2, Uniform(<<k, "Wr">>, -4, 4) \oslash (L*L)), Uniform(<<k, "W">>, -4, 4))
           ELSE CExp((I \otimes (2 \otimes Pi)) \otimes (PickSeq(<<k, "W">>, <<1, -1, 2>>) \oslash L))
  IN <<[op |-> "chirpz", p |-> NFmt(Coefs(k, deg + 1)), A |-> NFmt(<<A>>), W |-> NFmt(<<W>>), M |-> M]>>
EvalSess(k) ==
  LET deg == IRand(<<k, "deg">>, 30)
      z(j) == CASE IRand(<<k, j, "zk">>, 8) = 0 -> Num(0)
                [] IRand(<<k, j, "zk">>, 8) = 1 -> Num(PickSeq(<<k, j>>, <<1, -1, 2>>))
                [] OTHER -> Polar(RPow(10, Uniform(<<k, j, "zr">>, -1, 1)), Uniform(<<k, j, "zp">>, -4, 4))
      pk == Coefs(k, deg + 1)
      p == Vec([j \in 1..(deg + 1) |-> IF IRand(<<k, j, "zero">>, 6) = 0 THEN Num(0) ELSE pk[j]])
      nz == 1 + IRand(<<k, "nz">>, 6)
      c == [op |-> "eval", p |-> NFmt(p), z |-> NFmt(Vec([j \in 1..nz |-> z(j)])), deriv |-> 0]
  IN <<c, With(c, [deriv |-> 1])>>
FactSess(k) ==
  LET kappa == PickSeq(<<k, "kap">>, <<1, -1, 0>>)
      deg == PickSeq(<<k, "deg">>, <<1, 2, 3, 4, 5, 7, 8, 11, 15, 16, 23>>)
      os == PickSeq(<<k, "os">>, <<64, 96, 128, 256>>)
      raw == Coefs(k, deg + 1)
      small == VScale(Uniform(<<k, "s">>, "0.05", "0.7") \oslash Norm1(raw), raw)
      root(j) == Polar(IF IRand(<<k, j, "in">>, 2) = 0 THEN Uniform(<<k, j, "rr">>, 0, "0.6") ELSE Uniform(<<k, j, "rr">>, "1.7", 4), Uniform(<<k, j, "rp">>, -4, 4))
      prod == Fold(LAMBDA acc, j : PMul(acc, <<Num(1), CNeg(root(j))>>), <<raw[1]>>, [j \in 1..deg |-> j])
  IN <<[op |-> "specfact", p |-> NFmt(IF kappa = 0 THEN prod ELSE small), os |-> os, kappa |-> kappa]>>
Sess(i) == LET k == KeyOf(i) IN CASE i % 3 = 0 -> ChirpSess(k) [] i % 3 = 1 -> EvalSess(k) [] OTHER -> FactSess(k)
(* ------------------------------------------------------------- verdict *)
PAt(p, z) == PEval(p, z)
(* p(1/w_m), w_m = A W^-m *)
ChirpJ(a, r) ==
  LET p == NParse(a.p)  A == NParse(a.A)[1]  W == NParse(a.W)[1]  res == NParse(r.res)
      z(m) == CPow(W, m) \oslash A
      x == Vec([m \in 1..a.M |-> PAt(p, z(m - 1))])
      size == VSum([j \in 1..Len(p) |-> CAbs(p[j]) \otimes 20])
  IN [guard |-> r.guard = 1, chirpz |-> Len(res) = a.M /\ VDist(res, x) \preceq ("1e-11" \otimes size)]
EvalJ(a, r) ==
  LET p == NParse(a.p)  z == NParse(a.z)  n == Len(p) - 1
      ab == Vec([j \in 1..Len(p) |-> CAbs(p[j])])
      d == IF n = 0 THEN <<Num(0)>> ELSE Vec([j \in 1..n |-> (n + 1 - j) \otimes p[j]])
      dab == Vec([j \in 1..Len(d) |-> CAbs(d[j])])
      close(res, q, aq) == Len(res) = Len(z) /\ \A j \in 1..Len(z) : CAbs(res[j] \ominus PAt(q, z[j])) \preceq (("1e-13" \otimes PAt(aq, CAbs(z[j]))) \oplus "1e-300")
  IN [guard |-> r.guard = 1, value |-> close(NParse(r.res), p, ab), derivative |-> a.deriv = 0 \/ close(NParse(r.der), d, VScale(n, ab))]
FactJ(a, r) ==
  LET p == NParse(a.p)  f == NParse(r.res)  K == 16*Len(p) + 13
      on(m) == CExp((I \otimes (2 \otimes Pi)) \otimes ((m \oplus "0.3") \oslash K))
      P2(m) == Sq(CAbs(PAt(p, on(m))))  F2(m) == Sq(CAbs(PAt(f, on(m))))
      want(m) == CASE a.kappa = 0 -> P2(m) [] a.kappa = 1 -> 1 \ominus P2(m) [] a.kappa = -1 -> 1 \oplus P2(m)
      (* error of the cepstrum on os*(deg+1) points *)
      rho == IF a.kappa = 0 THEN Num("0.6") ELSE Sq(Norm1(p))
      err == IF a.kappa = 0 THEN "1e-10" \otimes Sq(Norm1(p)) ELSE (100 \otimes RPow(rho, a.os \oslash 2)) \oplus "1e-11"
      logs(m) == CRe(CLog(F2(m))) \oslash 2
      mean == VSum([m \in 1..K |-> logs(m)]) \oslash K
      c0 == f[Len(f)]
  IN [guard |-> r.guard = 1,
      modulus |-> Len(f) = Len(p) /\ \A m \in 1..K : CAbs(F2(m) \ominus want(m)) \preceq err,
      (* Jensen: the mean of log|F| on the circle is log|F(0)| iff no zero lies inside *)
      noZeroInside |-> CAbs(mean \ominus CRe(CLog(CAbs(c0)))) \preceq "1e-3",
      positive |-> 0 \prec CRe(c0) /\ CAbs(CIm(c0)) \preceq (err \oplus ("1e-10" \otimes CAbs(c0)))]
J(h, a, r) == IF r.ret # 0 THEN [success |-> FALSE] ELSE
  CASE a.op = "chirpz" -> ChirpJ(a, r) [] a.op = "eval" -> EvalJ(a, r) [] OTHER -> FactJ(a, r)
=============================================================================
