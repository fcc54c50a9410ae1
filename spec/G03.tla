-------------------------------- MODULE G03 ---------------------------------
(* Roots of polynomials (coefficients from the highest power down): all of   *)
(* them by the companion matrix, those on an arc of the unit circle by a     *)
(* grid search, with a variant for para-hermitian polynomials.               *)
EXTENDS Flow, Num
N == Tier(2400, 24000)
KeyOf(i) == <<Seed, "G03", i>>
Coef(k, j) == Cx(Uniform(<<k, j, "r">>, -1, 1), Uniform(<<k, j, "i">>, -1, 1))
Polar(r, phi) == r \otimes CExp(I \otimes phi)
FromRoots(lead, rs) == Fold(LAMBDA acc, r : PMul(acc, <<Num(1), CNeg(r)>>), <<Num(lead)>>, rs)
(* ------------------------------------------------------------ sessions *)
EigPoly(k) ==
  LET deg == PickSeq(<<k, "deg">>, <<0, 1, 2, 2, 3, 4, 5, 6, 8, 10, 13, 17, 24, 32, 48>>)
      kind == IRand(<<k, "kind">>, 3)
      zeros == IF deg > 1 /\ IRand(<<k, "nz">>, 5) = 0 THEN 1 + IRand(<<k, "nzn">>, deg) ELSE 0
      \* coefficients that vanish exactly, or up to rounding
      small == IF IRand(<<k, "small">>, 2) = 0 THEN Num(0) ELSE Num("1e-17")
      lead == Polar(Uniform(<<k, "l">>, "0.2", 2), Uniform(<<k, "lp">>, -4, 4))
  IN CASE kind = 0 -> Vec([j \in 1..(deg + 1) |-> IF j = 1 THEN lead ELSE IF j > deg + 1 - zeros THEN small \otimes Coef(k, j) ELSE Coef(k, j)])
       [] kind = 1 -> (* mostly zeros in between *)
          Vec([j \in 1..(deg + 1) |-> IF j = 1 THEN lead ELSE IF j = deg + 1 \/ IRand(<<k, j, "s">>, 4) = 0 THEN Coef(k, j) ELSE Num(0)])
       [] kind = 2 -> FromRoots(lead, [j \in 1..deg |-> Polar(Uniform(<<k, j, "rr">>, "0.5", "1.5"), Uniform(<<k, j, "rp">>, -4, 4))])
(* several polynomials in a row: what was computed before does not matter    *)
EigSess(k) == LET c(j) == [op |-> "eigroots", p |-> NFmt(EigPoly(<<k, j>>))] IN <<c(1), c(2), c(1), c(3), c(1)>>
(* angles on the circle: m roots, pairwise at least gap apart on the arc      *)
Angles(k, lo, hi, m, gap) ==
  LET w == (hi \ominus lo) \oslash m IN Vec([j \in 1..m |-> (lo \oplus (w \otimes (j - 1))) \oplus Uniform(<<k, j, "ang">>, gap, w \ominus gap)])
GridSess(k, ph) ==
  LET m0 == IRand(<<k, "m">>, 8)  m == IF ph = 1 THEN 2*m0 ELSE m0
      least == IF m < 2 THEN 2 - m ELSE 0
      off == IF ph = 1 THEN least + 2*IRand(<<k, "off">>, 4) ELSE least + IRand(<<k, "off">>, 6)
      M == PickSeq(<<k, "M">>, <<256, 300, 401, 512, 777, 1024>>)
      full == IRand(<<k, "full">>, 3) = 0
      lo == IF full THEN CNeg(Pi) ELSE Uniform(<<k, "lo">>, -4, 3)
      hi == IF full THEN Pi ELSE lo \oplus Uniform(<<k, "len">>, 1, 6)
      eps == (hi \ominus lo) \oslash (M - 1)
      (* roots all over the circle, not only on the arc *)
      th == IF m = 0 THEN <<>> ELSE Angles(k, lo, lo \oplus (2 \otimes Pi), m, 4 \otimes eps)
      on == Vec([j \in 1..m |-> IF IRand(<<k, j, "snap">>, 6) = 0 /\ ph = 1 THEN CExp(I \otimes (lo \oplus (eps \otimes RRound((th[j] \ominus lo) \oslash eps)))) ELSE CExp(I \otimes th[j])])
      far(j) == Polar(Uniform(<<k, j, "fr">>, "0.3", "0.75"), Uniform(<<k, j, "fp">>, -4, 4))
      out == IF ph = 1 THEN Fold(LAMBDA acc, j : acc \o <<far(j), 1 \oslash CConj(far(j))>>, <<>>, [j \in 1..(off \div 2) |-> j])
             ELSE Vec([j \in 1..off |-> IF IRand(<<k, j, "o">>, 2) = 0 THEN far(j) ELSE 1 \oslash far(j)])
      rs == on \o out
      raw == FromRoots(1, rs)
      sym == CSqrt(CConj(raw[Len(raw)]) \oslash raw[1])
      p == IF ph = 1 THEN VScale(sym \oslash CAbs(sym), raw) ELSE VScale(Coef(k, "lead"), raw)
  IN <<[op |-> "gridroots", p |-> NFmt(p), PHI |-> RFmt(<<lo, hi>>), M |-> M, ph |-> ph, on |-> NFmt(on), out |-> NFmt(out)]>>
(* on a para-hermitian polynomial both searches agree *)
BothSess(k) == LET s == GridSess(k, 1) IN s \o <<With(s[1], [ph |-> 0])>>
Sess(i) == LET k == KeyOf(i) IN CASE i % 4 = 0 -> BothSess(k) [] i % 4 = 1 -> GridSess(k, 0) [] OTHER -> EigSess(k)
(* ------------------------------------------------------------- verdict *)
AbsP(p) == Vec([j \in 1..Len(p) |-> CAbs(p[j])])
EigJ(a, r) ==
  LET p == NParse(a.p)  z == NParse(r.res)  n == Len(p) - 1  ab == AbsP(p)
      (* backward error, relative to the size of the companion matrix *)
      big == VMaxAbs(p)
      back(x) == IF 1 \prec CAbs(x) THEN CPow(CAbs(x), n) ELSE Num(1)
  IN [guard |-> r.guard = 1, inputKept |-> r.insame = 1,
      count |-> Len(z) = n,
      areRoots |-> \A j \in 1..Len(z) : CAbs(PEval(p, z[j])) \preceq (("1e-11" \otimes (n + 1)) \otimes (big \otimes back(z[j]))),
      (* n+1 points of the circle determine a polynomial of degree n *)
      allRoots |-> \A m \in 0..n : LET x == CExp((I \otimes (2 \otimes Pi)) \otimes (m \oslash (n + 1))) IN
        CAbs(Fold(LAMBDA acc, y : acc \otimes (x \ominus y), p[1], z) \ominus PEval(p, x)) \preceq (("1e-11" \otimes (n + 1)) \otimes (big \otimes (n + 1)))]
GridJ(a, r) ==
  LET on == NParse(a.on)  out == NParse(a.out)  all == on \o out  res == NParse(r.res)  PHI == NParse(a.PHI)
      eps == (PHI[2] \ominus PHI[1]) \oslash (a.M - 1)
      curv(j) == 2 \oplus VSum([i \in 1..Len(all) |-> IF i = j THEN 0 ELSE 2 \oslash CAbs(all[i] \ominus on[j])])
      (* local linearisation on a grid of this step *)
      tol(j) == (Sq(eps) \otimes curv(j)) \oplus "1e-9"
      (* angle measured from the start of the arc, in steps *)
      ang(z) == LET t == CArg(z \oslash CExp(I \otimes PHI[1])) IN (IF t \prec "-1e-12" THEN t \oplus (2 \otimes Pi) ELSE t) \oslash eps
      len == a.M - 1
      inner(j) == 2 \preceq ang(on[j]) /\ ang(on[j]) \preceq (len - 2)
      outer(j) == ang(on[j]) \preceq (len + 2) \/ ((2 \otimes Pi) \oslash eps) \ominus ang(on[j]) \preceq 2
      hits(j) == {i \in 1..Len(res) : CAbs(res[i] \ominus on[j]) \preceq tol(j)}
      ongrid(j) == LET x == ang(on[j]) IN CAbs(x \ominus RRound(x)) \preceq "1e-6"
  IN [guard |-> r.guard = 1, countsAgree |-> r.Mout = Len(res),
      complete |-> \A j \in 1..Len(on) : inner(j) => hits(j) # {},
      (* a zero of a grid value ends two intervals *)
      once |-> \A j \in 1..Len(on) : Cardinality(hits(j)) <= (IF ongrid(j) THEN 2 ELSE 1),
      nothingElse |-> \A i \in 1..Len(res) : \E j \in 1..Len(on) : i \in hits(j) /\ outer(j),
      onCircle |-> a.ph = 0 \/ \A i \in 1..Len(res) : CAbs(CAbs(res[i]) \ominus 1) \preceq "1e-12"]
J(h, a, r) == IF r.ret # 0 THEN [success |-> FALSE] ELSE IF a.op = "eigroots" THEN EigJ(a, r) ELSE GridJ(a, r)
=============================================================================
