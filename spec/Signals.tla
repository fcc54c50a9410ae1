------------------------------ MODULE Signals -------------------------------
(* Families of input signals, reproducible from a key.                      *)
EXTENDS Num, Conf
(* smooth asymmetric pulses with noise *)
NoisyPulse(key, D, amp) == Vec([j \in 1..D |->
   LET x == ((2*j - D - 1) \oslash D)  env == CExp(CNeg(Sq((2 \otimes x) \oplus "0.2")))
   IN (amp \otimes env) \otimes (Cx(1, Uniform(<<key, "n">>, -1, 1) \otimes x) \oplus Cx(Uniform(<<key, j, 1>>, "-0.3", "0.3"), Uniform(<<key, j, 2>>, "-0.3", "0.3")))])
(* one in two signals is given a peculiarity: vanishing samples, real or      *)
(* imaginary, constant, one single non-zero sample, zero                      *)
Peculiar(key, v) ==
  LET n == IRand(<<key, "peculiar">>, 14)  D == Len(v)  one == 1 + IRand(<<key, "one">>, D) IN
  Vec([j \in 1..D |->
    CASE n = 0 -> IF IRand(<<key, j, "zero">>, 2) = 0 THEN Num(0) ELSE v[j]
      [] n = 1 -> IF 4*j <= D \/ 4*j > 3*D THEN Num(0) ELSE v[j]
      [] n = 2 -> CRe(v[j])
      [] n = 3 -> I \otimes CRe(v[j])
      [] n = 4 -> v[one]
      [] n = 5 -> IF j = one THEN v[j] ELSE Num(0)
      [] n = 6 -> IF one = 1 THEN Num(0) ELSE CRe(v[j])
      [] OTHER -> v[j]])
(* one session in six has a long signal or many frequencies                *)
Sizes(k, i, deg, up) ==
  IF IRand(<<k, "class">>, 6) # 0 THEN <<IF i % 11 = 0 /\ up = 1 THEN 2 ELSE PickSeq(<<k, "D">>, IF deg > 50 THEN <<3, 4, 5, 8>> ELSE <<3, 4, 5, 7, 8, 12, 13, 16, 21>>), PickSeq(<<k, "M">>, <<1, 2, 3, 5>>)>>
  ELSE IF IRand(<<k, "large">>, 2) = 0 THEN <<PickSeq(<<k, "D">>, IF deg*up > 50 THEN <<20, 27>> ELSE IF deg*up > 8 THEN <<33, 64, 70>> ELSE <<100, 128, 161, 256, 300>>), PickSeq(<<k, "M">>, <<2, 3>>)>>
  ELSE <<PickSeq(<<k, "D">>, <<3, 4, 6>>), PickSeq(<<k, "M">>, <<17, 31, 64, 75>>)>>
(* sampling instants of D samples on the window T *)
Instants(T, D) == Vec([j \in 1..D |-> T[1] \oplus ((j - 1) \otimes ((T[2] \ominus T[1]) \oslash (D - 1)))])
SechR(x) == LET e == CExp(CNeg(CAbs(x))) IN (2 \otimes e) \oslash (1 \oplus Sq(e))
(* A sech(s(t-t0)) s exp(-2 i w t + i phi): eigenvalues w + i s (A-1/2-k)    *)
Sech(T, D, A, s, t0, w, phi) == LET t == Instants(T, D) IN
   Vec([j \in 1..D |-> ((A \otimes s) \otimes SechR(s \otimes (t[j] \ominus t0))) \otimes CExp(I \otimes (phi \ominus ((2 \otimes w) \otimes t[j])))])
SechEigs(A, s, w) == LET n == RFloor(A \oplus "0.4999999") IN Vec([k \in 1..n |-> Cx(w, s \otimes ((A \oplus "0.5") \ominus k))])
Reversed(u) == Vec([j \in 1..Len(u) |-> u[Len(u) + 1 - j]])
ConjAll(u) == Vec([j \in 1..Len(u) |-> CConj(u[j])])
Scaled(s, u) == VScale(s, u)
Part(u, k, n) == SubSeq(u, (k - 1)*n + 1, k*n)     \* k-th block of length n
Map(u, f(_)) == Vec([j \in 1..Len(u) |-> f(u[j])])
(* both sets of numbers agree up to tol *)
SameSet(u, w, tol) == /\ \A j \in 1..Len(u) : VNearest(w, u[j]) \preceq tol
                      /\ \A j \in 1..Len(w) : VNearest(u, w[j]) \preceq tol
Subset(u, w, tol) == \A j \in 1..Len(u) : VNearest(w, u[j]) \preceq tol
=============================================================================
