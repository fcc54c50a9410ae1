------------------------------- MODULE Exact --------------------------------
(* Nonlinear spectra known in closed form, independent of any discretization *)
EXTENDS Num, Conf, Sequences
(* Gamma function, Lanczos approximation *)
LOCAL LanczosP == << "676.5203681218851", "-1259.1392167224028", "771.32342877765313", "-176.61502916214059", "12.507343278686905", "-0.13857109526572012", "9.9843695780195716e-6", "1.5056327351493116e-7" >>
LOCAL Lanczos(z) ==   \* Gamma(z+1), real part of z at least -1/2
  LET x == VSum(Vec([j \in 1..8 |-> LanczosP[j] \oslash (z \oplus j)])) \oplus "0.99999999999980993"
      t == z \oplus "7.5"
  IN (CSqrt(2 \otimes Pi) \otimes CExp(((z \oplus "0.5") \otimes CLog(t)) \ominus t)) \otimes x
Gamma(z) == IF CRe(z) \prec "0.5" THEN Pi \oslash (CSin(Pi \otimes z) \otimes Lanczos(CNeg(z))) ELSE Lanczos(z \ominus 1)
(* 1/Gamma is entire *)
RGamma(z) == LET n == RRound(CRe(z)) IN IF n <= 0 /\ CEq(z, n) THEN Num(0) ELSE 1 \oslash Gamma(z)
Sinh(z) == (CExp(z) \ominus CExp(CNeg(z))) \oslash 2
Cosh(z) == (CExp(z) \oplus CExp(CNeg(z))) \oslash 2
(* A s sech(s(t-t0)) exp(i phi - 2 i w (t-t0)) for the NSE *)
SechA(A, s, w, kap, l) == LET m == (l \ominus w) \oslash s  B == IF kap = 1 THEN Num(A) ELSE I \otimes A  g == "0.5" \ominus (I \otimes m) IN
  (Sq(Gamma(g)) \otimes RGamma(g \oplus B)) \otimes RGamma(g \ominus B)
SechB(A, s, w, t0, phi, kap, l) == LET m == (l \ominus w) \oslash s IN
  (((IF kap = 1 THEN CNeg(CSin(Pi \otimes A)) ELSE Sinh(Pi \otimes A)) \oslash Cosh(Pi \otimes m)) \otimes CExp(CNeg(I \otimes phi))) \otimes CExp(CNeg((2 \otimes I) \otimes (l \otimes t0)))
(* nu(nu+1) s^2 sech(s(t-t0))^2 for the KdV equation *)
Sech2A(nu, s, l) == LET k == I \otimes (l \oslash s) IN
  ((Gamma(1 \ominus k) \otimes Gamma(CNeg(k))) \otimes RGamma((1 \oplus nu) \ominus k)) \otimes RGamma(CNeg(nu) \ominus k)
Sech2B(nu, s, t0, l) == ((I \otimes CSin(Pi \otimes nu)) \oslash Sinh(Pi \otimes (l \oslash s))) \otimes CExp(CNeg((2 \otimes I) \otimes (l \otimes t0)))
=============================================================================
