-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Complex numbers.  The operators of this module are given meaning by     *)
(* NumOverrides.java (IEEE double arithmetic), the way TLC gives meaning   *)
(* to Integers and Reals by Java code.  Arguments may be numbers, TLC      *)
(* integers, or decimal strings such as "0.25" or "1,-2" (1-2i).           *)
(***************************************************************************)
EXTENDS Integers, Sequences
Num(x) == CHOOSE v : TRUE
Cx(re, im) == CHOOSE v : TRUE
CAdd(a, b) == CHOOSE v : TRUE
CSub(a, b) == CHOOSE v : TRUE
CMul(a, b) == CHOOSE v : TRUE
CDiv(a, b) == CHOOSE v : TRUE
CNeg(a) == CHOOSE v : TRUE
CConj(a) == CHOOSE v : TRUE
CAbs(a) == CHOOSE v : TRUE
CRe(a) == CHOOSE v : TRUE
CIm(a) == CHOOSE v : TRUE
CArg(a) == CHOOSE v : TRUE
CExp(a) == CHOOSE v : TRUE
CLog(a) == CHOOSE v : TRUE
CSqrt(a) == CHOOSE v : TRUE
CCos(a) == CHOOSE v : TRUE
CSin(a) == CHOOSE v : TRUE
CPow(a, k) == CHOOSE v : TRUE      \* k a TLC integer
RPow(a, b) == CHOOSE v : TRUE      \* real powers of positive reals
RLe(a, b) == CHOOSE v : TRUE       \* compares real parts
RLt(a, b) == CHOOSE v : TRUE
CEq(a, b) == CHOOSE v : TRUE
CFinite(a) == CHOOSE v : TRUE
RMax(a, b) == CHOOSE v : TRUE
RMin(a, b) == CHOOSE v : TRUE
RFloor(a) == CHOOSE v : TRUE       \* a TLC integer
RRound(a) == CHOOSE v : TRUE
VSum(u) == CHOOSE v : TRUE
VDot(u, w) == CHOOSE v : TRUE      \* no conjugation
VMaxAbs(u) == CHOOSE v : TRUE
VDist(u, w) == CHOOSE v : TRUE     \* largest |u_i-w_i|, infinite if lengths differ or not finite
VAdd(u, w) == CHOOSE v : TRUE
VScale(s, u) == CHOOSE v : TRUE
VDft(u, sgn) == CHOOSE v : TRUE
PEval(p, z) == CHOOSE v : TRUE     \* highest power first
PMul(p, q) == CHOOSE v : TRUE
MMul(A, B) == CHOOSE v : TRUE
MSolve(A, b) == CHOOSE v : TRUE     \* A x = b
MAdd(A, B) == CHOOSE v : TRUE
MScale(s, A) == CHOOSE v : TRUE
MExp(A) == CHOOSE v : TRUE
Vec(u) == CHOOSE v : TRUE          \* the same sequence, evaluated
MProd(s) == CHOOSE v : TRUE        \* s[Len(s)] ... s[2] s[1]
VNearest(u, x) == CHOOSE v : TRUE  \* distance of x from the set of entries
NParse(str) == CHOOSE v : TRUE     \* "1,2 3,0" |-> <<1+2i, 3>>
NFmt(u) == CHOOSE v : TRUE         \* the inverse of NParse
RFmt(u) == CHOOSE v : TRUE         \* real parts only: "1 3"
RRand(key) == CHOOSE v : TRUE      \* reproducible number in [0,1)
IRand(key, n) == CHOOSE v : TRUE   \* reproducible integer in 0..n-1

a \oplus b == CAdd(a, b)
a \ominus b == CSub(a, b)
a \otimes b == CMul(a, b)
a \oslash b == CDiv(a, b)
a \preceq b == RLe(a, b)
a \prec b == RLt(a, b)
I == Cx(0, 1)
Pi == CArg(-1)
Sq(x) == CMul(x, x)
(* |a-b| at most tol relative to the larger of 1 and |b| *)
Near(a, b, tol) == RLe(CAbs(CSub(a, b)), CMul(tol, RMax(1, CAbs(b))))
(* sequences agree up to tol relative to the largest entry (at least 1) *)
VNear(u, w, tol) == RLe(VDist(u, w), CMul(tol, RMax(1, VMaxAbs(w))))
Uniform(key, lo, hi) == CAdd(lo, CMul(CSub(hi, lo), RRand(key)))
PickSeq(key, s) == s[1 + IRand(key, Len(s))]
=============================================================================
