-------------------------------- MODULE Akns --------------------------------
(***************************************************************************)
(* Numerical schemes for  v_t = [[-i lam, q],[r, i lam]] v.                *)
(* A scheme maps the samples of (q, r) around one time step of length h    *)
(* to a 2x2 transfer matrix; the monodromy matrix of a signal is the       *)
(* product over the steps, the latest step leftmost.                       *)
(***************************************************************************)
EXTENDS Num, Conf
Names == <<"2SPLIT2_MODAL","BO","2SPLIT1A","2SPLIT1B","2SPLIT2A","2SPLIT2B","2SPLIT2S","2SPLIT3A","2SPLIT3B","2SPLIT3S",
           "2SPLIT4A","2SPLIT4B","2SPLIT5A","2SPLIT5B","2SPLIT6A","2SPLIT6B","2SPLIT7A","2SPLIT7B","2SPLIT8A","2SPLIT8B",
           "4SPLIT4A","4SPLIT4B","CF4_2","CF4_3","CF5_3","CF6_4","ES4","TES4">>
DisName(d) == Names[d + 1]
AllDis == 0 .. 27
SlowNames == {"BO","CF4_2","CF4_3","CF5_3","CF6_4","ES4","TES4"}
IsSlow(d) == DisName(d) \in SlowNames
Up(d) == LET n == DisName(d) IN
  CASE n \in {"4SPLIT4A","4SPLIT4B","CF4_2"} -> 2 [] n \in {"CF4_3","CF5_3","ES4","TES4"} -> 3 [] n = "CF6_4" -> 4 [] OTHER -> 1
Order(d) == LET n == DisName(d) IN
  CASE n \in {"4SPLIT4A","4SPLIT4B","CF4_2","CF4_3","ES4","TES4"} -> 4 [] n = "CF5_3" -> 5 [] n = "CF6_4" -> 6 [] OTHER -> 2
Degree(d) == LET n == DisName(d) IN
  CASE n \in {"2SPLIT1A","2SPLIT1B","2SPLIT2A","2SPLIT2B","2SPLIT2S","2SPLIT2_MODAL"} -> 1
    [] n \in {"2SPLIT3S","2SPLIT4B","4SPLIT4B"} -> 2
    [] n \in {"2SPLIT3A","2SPLIT3B"} -> 3
    [] n \in {"2SPLIT4A","4SPLIT4A"} -> 4
    [] n = "2SPLIT6B" -> 6 [] n \in {"2SPLIT6A","2SPLIT8B"} -> 12
    [] n \in {"2SPLIT5A","2SPLIT5B"} -> 15 [] n = "2SPLIT8A" -> 24
    [] n \in {"2SPLIT7A","2SPLIT7B"} -> 105
    [] OTHER -> 0
(* ------------------------------------------------------- matrix helpers *)
Id2 == <<<<1, 0>>, <<0, 1>>>>
Mat(a, b, c, d) == <<<<a, b>>, <<c, d>>>>
Det2(m) == (m[1][1] \otimes m[2][2]) \ominus (m[1][2] \otimes m[2][1])
RECURSIVE MPow(_, _)
MPow(m, n) == IF n = 0 THEN Id2 ELSE IF n = 1 THEN m ELSE MMul(m, MPow(m, n - 1))
(* ------------------------------------------------------------- splitting *)
(* exp(t A h), exp(t B h) with A = diag(-i lam, i lam), B = offdiag(q, r)   *)
EA(t, h, lam) == LET e == CExp((I \otimes lam) \otimes (h \otimes t)) IN Mat(1 \oslash e, 0, 0, e)
EB(t, h, q, r) == LET k == h \otimes t IN MExp(Mat(0, k \otimes q, k \otimes r, 0))
(* Strang compositions of n sub-steps and their odd counterparts           *)
SA(n, h, lam, q, r) == LET a == EA("0.5" \oslash n, h, lam)  b == EB(1 \oslash n, h, q, r) IN MPow(MMul(a, MMul(b, a)), n)
SB(n, h, lam, q, r) == LET b == EB("0.5" \oslash n, h, q, r)  a == EA(1 \oslash n, h, lam) IN MPow(MMul(b, MMul(a, b)), n)
OA(n, h, lam, q, r) == LET a1 == EA(1 \oslash n, h, lam)  b1 == EB(1 \oslash n, h, q, r)
                           a2 == EA(2 \oslash n, h, lam)  b2 == EB(2 \oslash n, h, q, r)
                       IN MMul(a1, MMul(MPow(MMul(b2, a2), (n - 1) \div 2), b1))
OB(n, h, lam, q, r) == LET a1 == EA(1 \oslash n, h, lam)  b1 == EB(1 \oslash n, h, q, r)
                           a2 == EA(2 \oslash n, h, lam)  b2 == EB(2 \oslash n, h, q, r)
                       IN MMul(b1, MMul(MPow(MMul(a2, b2), (n - 1) \div 2), a1))
(* the linear combinations: <<numerator, denominator, family, sub-steps>>  *)
Terms(n) ==
  CASE n = "2SPLIT1A" -> <<<<1,1,"OA",1>>>>
    [] n = "2SPLIT1B" -> <<<<1,1,"OB",1>>>>
    [] n = "2SPLIT2A" -> <<<<1,1,"SA",1>>>>
    [] n = "2SPLIT2B" -> <<<<1,1,"SB",1>>>>
    [] n = "2SPLIT2S" -> <<<<1,2,"OA",1>>, <<1,2,"OB",1>>>>
    [] n = "2SPLIT3A" -> <<<<9,8,"OA",3>>, <<-1,8,"OA",1>>>>
    [] n = "2SPLIT3B" -> <<<<9,8,"OB",3>>, <<-1,8,"OB",1>>>>
    [] n = "2SPLIT3S" -> <<<<2,3,"SA",1>>, <<2,3,"SB",1>>, <<-1,6,"OA",1>>, <<-1,6,"OB",1>>>>
    [] n \in {"2SPLIT4A","4SPLIT4A"} -> <<<<4,3,"SA",2>>, <<-1,3,"SA",1>>>>
    [] n \in {"2SPLIT4B","4SPLIT4B"} -> <<<<4,3,"SB",2>>, <<-1,3,"SB",1>>>>
    [] n = "2SPLIT5A" -> <<<<625,384,"OA",5>>, <<-81,128,"OA",3>>, <<1,192,"OA",1>>>>
    [] n = "2SPLIT5B" -> <<<<625,384,"OB",5>>, <<-81,128,"OB",3>>, <<1,192,"OB",1>>>>
    [] n = "2SPLIT6A" -> <<<<81,40,"SA",3>>, <<-16,15,"SA",2>>, <<1,24,"SA",1>>>>
    [] n = "2SPLIT6B" -> <<<<81,40,"SB",3>>, <<-16,15,"SB",2>>, <<1,24,"SB",1>>>>
    [] n = "2SPLIT7A" -> <<<<117649,46080,"OA",7>>, <<-15625,9216,"OA",5>>, <<729,5120,"OA",3>>, <<-1,9216,"OA",1>>>>
    [] n = "2SPLIT7B" -> <<<<117649,46080,"OB",7>>, <<-15625,9216,"OB",5>>, <<729,5120,"OB",3>>, <<-1,9216,"OB",1>>>>
    [] n = "2SPLIT8A" -> <<<<1024,315,"SA",4>>, <<-729,280,"SA",3>>, <<16,45,"SA",2>>, <<-1,360,"SA",1>>>>
    [] n = "2SPLIT8B" -> <<<<1024,315,"SB",4>>, <<-729,280,"SB",3>>, <<16,45,"SB",2>>, <<-1,360,"SB",1>>>>
Family(f, k, h, lam, q, r) == CASE f = "SA" -> SA(k, h, lam, q, r) [] f = "SB" -> SB(k, h, lam, q, r)
                                [] f = "OA" -> OA(k, h, lam, q, r) [] f = "OB" -> OB(k, h, lam, q, r)
SplitStep(n, h, lam, q, r) ==
  LET term(t) == MScale(t[1] \oslash t[2], Family(t[3], t[4], h, lam, q, r))  ts == Terms(n)
  IN Fold(LAMBDA acc, t : MAdd(acc, term(t)), term(ts[1]), Tail(ts))
ModalStep(h, lam, q, r) ==
  LET Q == h \otimes q  R == h \otimes r  a == EA("0.5", h, lam)
  IN MScale(1 \oslash CSqrt(1 \ominus (Q \otimes R)), MMul(a, MMul(Mat(1, Q, R, 1), a)))
(* ----------------------------------------------------------- exponential *)
BoStep(h, lam, q, r) == LET n == CNeg(I \otimes lam) IN MExp(Mat(h \otimes n, h \otimes q, h \otimes r, CNeg(h \otimes n)))
S3 == CSqrt(3)
S15 == CSqrt(15)
(* commutator-free Magnus weights: rows are exponentials, columns nodes     *)
Legendre(n, x) == CASE n = 0 -> 1 [] n = 1 -> x [] n = 2 -> "0.5" \otimes ((3 \otimes Sq(x)) \ominus 1)
RawWeights(n) ==
  CASE n \in {"CF4_2","4SPLIT4A","4SPLIT4B"} -> LET p == "0.5" \oplus (1 \oslash S3)  m == "0.5" \ominus (1 \oslash S3) IN <<<<p, m>>, <<m, p>>>>
    [] n = "CF4_3" ->
         LET f == << <<11 \oslash 40, 20 \oslash 87, 7 \oslash 50>>, <<9 \oslash 20, 0, (-7) \oslash 25>>, <<11 \oslash 40, (-20) \oslash 87, 7 \oslash 50>> >>
             w == <<5 \oslash 18, 4 \oslash 9, 5 \oslash 18>>
             xx == 2 \otimes CSqrt("0.15")
             x == <<xx, 0, CNeg(xx)>>
         IN Vec([i \in 1..3 |-> Vec([m \in 1..3 |-> w[m] \otimes VSum([k \in 1..3 |-> (2*k - 1) \otimes (Legendre(k - 1, x[m]) \otimes f[i][k])])])])
    [] n = "CF5_3" ->
         LET a == Cx((145 \oplus (37 \otimes S15)) \oslash 900, (5 \oplus (3 \otimes S15)) \oslash 300)
             b == Cx((-1) \oslash 45, 1 \oslash 15)
             c == Cx((145 \ominus (37 \otimes S15)) \oslash 900, (5 \ominus (3 \otimes S15)) \oslash 300)
             d == Cx((-2) \oslash 45, CNeg(S15) \oslash 50)
         IN <<<<a, b, c>>, <<d, 22 \oslash 45, CConj(d)>>, <<CConj(c), CConj(b), CConj(a)>>>>
    [] n = "CF6_4" ->
         LET a == Num("0.245985577298764,0.038734389227165") b == Num("-0.046806149832549,0.012442141491185")
             c == Num("0.010894359342569,-0.004575808769067") d == Num("0.062868370946917,-0.048761268117765")
             e == Num("0.269028372054771,-0.012442141491185") f == Num("-0.041970529810473,0.014602687659668")
         IN <<<<a, b, c>>, <<d, e, f>>, <<f, e, d>>, <<c, b, a>>>>
(* fraction of the step covered by each exponential                        *)
StepShares(n) == CASE n \in {"CF4_2","4SPLIT4A","4SPLIT4B"} -> <<Num("0.5"), Num("0.5")>>
                   [] n \in {"CF4_3","CF5_3","CF6_4"} -> LET w == RawWeights(n) IN Vec([i \in 1..Len(w) |-> VSum(w[i])])
                   [] OTHER -> <<Num(1)>>
(* weights of the samples inside one exponential, normalised to one         *)
Weights(n) == IF n \in {"CF4_2","4SPLIT4A","4SPLIT4B"} THEN RawWeights(n)
              ELSE LET w == RawWeights(n) IN Vec([i \in 1..Len(w) |-> VScale(1 \oslash VSum(w[i]), w[i])])
(* offsets of the nodes in units of the step                               *)
Nodes(n) == CASE n \in {"CF4_2","4SPLIT4A","4SPLIT4B"} -> <<CNeg(S3) \oslash 6, S3 \oslash 6>>
              [] n = "CF4_3" -> <<CNeg(CSqrt("0.15")), Num(0), CSqrt("0.15")>>
              [] n \in {"CF5_3","CF6_4"} -> <<CNeg(S15) \oslash 10, Num(0), S15 \oslash 10>>
Gen2(a1, a2, a3) == MExp(Mat(a3, a1 \ominus (I \otimes a2), a1 \oplus (I \otimes a2), CNeg(a3)))
H2(h) == Sq(h)
H3(h) == h \otimes Sq(h)
Es4Step(h, lam, q, r) ==
  LET h3 == H3(h)
      a1 == (((h3 \otimes (q[3] \oplus r[3])) \oslash 48) \oplus ((h \otimes (q[1] \oplus r[1])) \oslash 2)) \oplus (((I \otimes h3) \otimes (lam \otimes (q[2] \ominus r[2]))) \oslash 12)
      a2 == ((((I \otimes h) \otimes (q[1] \ominus r[1])) \oslash 2) \oplus (((I \otimes h3) \otimes (q[3] \ominus r[3])) \oslash 48)) \ominus ((h3 \otimes (lam \otimes (q[2] \oplus r[2]))) \oslash 12)
      a3 == CNeg((I \otimes h) \otimes lam) \ominus ((h3 \otimes ((q[1] \otimes r[2]) \ominus (q[2] \otimes r[1]))) \oslash 12)
  IN Gen2(a1, a2, a3)
Tes4Step(h, lam, q, r) ==
  LET h3 == H3(h)  h2 == H2(h)
      side(sg) == Gen2( ((h3 \otimes (q[3] \oplus r[3])) \oslash 96) \oplus ((sg \otimes (h2 \otimes (q[2] \oplus r[2]))) \oslash 24),
                        (((I \otimes h3) \otimes (q[3] \ominus r[3])) \oslash 96) \oplus ((sg \otimes ((I \otimes h2) \otimes (q[2] \ominus r[2]))) \oslash 24), 0)
  IN MMul(side(1), MMul(BoStep(h, lam, q[1], r[1]), side(-1)))
(* one step of any scheme; q, r are the Up(d) preprocessed samples          *)
Step(d, h, lam, q, r) ==
  LET n == DisName(d) IN
  CASE n = "2SPLIT2_MODAL" -> ModalStep(h, lam, q[1], r[1])
    [] n = "BO" -> BoStep(h, lam, q[1], r[1])
    [] n \in {"CF4_2","CF4_3","CF5_3","CF6_4"} ->
         LET w == StepShares(n) IN MProd([j \in 1..Len(w) |-> BoStep(h \otimes w[j], lam, q[j], r[j])])
    [] n \in {"4SPLIT4A","4SPLIT4B"} -> MMul(SplitStep(n, h \oslash 2, lam, q[2], r[2]), SplitStep(n, h \oslash 2, lam, q[1], r[1]))
    [] n = "ES4" -> Es4Step(h, lam, q, r)
    [] n = "TES4" -> Tes4Step(h, lam, q, r)
    [] OTHER -> SplitStep(n, h, lam, q[1], r[1])
(* qp, rp: one group of Up(d) samples per step                             *)
Mono(d, h, lam, qp, rp) == MProd([k \in 1..Len(qp) |-> Step(d, h, lam, qp[k], rp[k])])
(* -------------------------------------------------------- preprocessing *)
(* number of skipped samples and of steps when Dsub of D samples are asked  *)
HalfUp(a, b) == (2*a + b) \div (2*b)             \* a/b rounded, halves up
SkipOf(D, Dsub) == LET w == IF Dsub < 2 THEN 2 ELSE IF Dsub > D THEN D ELSE Dsub IN HalfUp(D, w)
StepsOf(D, Dsub) == HalfUp(D, SkipOf(D, Dsub))
(* trigonometric interpolation: the samples of the periodic continuation    *)
(* with its lowest frequencies, shifted by x sampling intervals             *)
Shifted(q, x) ==
  LET D == Len(q)
      Q == VDft(q, -1)
      fr(k) == IF 2*k < D THEN k ELSE k - D
      P == Vec([k \in 1..D |-> Q[k] \otimes CExp((I \otimes (2 \otimes Pi)) \otimes ((x \otimes fr(k - 1)) \oslash D))])
  IN VScale(1 \oslash D, VDft(P, 1))
(* groups of samples handed to the scheme, for q and for its companion r    *)
(* which is obtained sample-wise by rq(j, v), j = 1,2,3 (value, derivatives) *)
Prep(d, D, Dsub, q, h, rq(_, _)) ==
  LET n == DisName(d)  k == SkipOf(D, Dsub)  m == StepsOf(D, Dsub)
      at(v, j) == v[1 + (j - 1)*k]
      hs == h \otimes k
  IN IF n \in {"CF4_2","4SPLIT4A","4SPLIT4B","CF4_3","CF5_3","CF6_4"}
     THEN LET w == Weights(n)  nd == Nodes(n)
              sh == Vec([i \in 1..Len(nd) |-> IF CEq(nd[i], 0) THEN q ELSE Shifted(q, nd[i] \otimes k)])
              grp(j) == LET x == Vec([i \in 1..Len(nd) |-> at(sh[i], j)])
                            y == Vec([i \in 1..Len(nd) |-> rq(1, x[i])])
                        IN [q |-> Vec([e \in 1..Len(w) |-> VDot(w[e], x)]), r |-> Vec([e \in 1..Len(w) |-> VDot(w[e], y)])]
              g == Vec([j \in 1..m |-> grp(j)])
          IN [q |-> Vec([j \in 1..m |-> g[j].q]), r |-> Vec([j \in 1..m |-> g[j].r])]
     ELSE IF n \in {"ES4","TES4"}
     THEN LET v(j) == IF j < 1 \/ j > m THEN 0 ELSE at(q, j)
              g(j) == <<Num(v(j)), (v(j+1) \ominus v(j-1)) \oslash (2 \otimes hs), ((v(j+1) \ominus (2 \otimes v(j))) \oplus v(j-1)) \oslash Sq(hs)>>
          IN [q |-> Vec([j \in 1..m |-> g(j)]), r |-> Vec([j \in 1..m |-> LET x == g(j) IN Vec([i \in 1..3 |-> rq(i, x[i])])])]
     ELSE [q |-> Vec([j \in 1..m |-> <<at(q, j)>>]), r |-> Vec([j \in 1..m |-> <<rq(1, at(q, j))>>])]
=============================================================================
