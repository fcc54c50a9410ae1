-------------------------------- MODULE J02 ---------------------------------
(* Discretizations describe themselves consistently: polynomial degree,      *)
(* samples per step, order, map between the frequency and the unit circle    *)
(* and its inverse, change of basis, its inverse and derivative.             *)
EXTENDS Flow, Kdv, Manakov
ManIds == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12>>
N == Tier(900, 9000)
KeyOf(i) == <<Seed, "J02", i>>
Pick(k) == LET pde == PickSeq(<<k, "pde">>, <<"nse", "kdv", "kdv", "manakov">>) IN
  [pde |-> pde, dis |-> IF IRand(<<k, "bad">>, 12) = 0 THEN 56 + IRand(<<k, "v">>, 900) ELSE CASE pde = "nse" -> IRand(<<k, "d">>, 28) [] pde = "kdv" -> IRand(<<k, "d">>, 56) [] OTHER -> ManIds[1 + IRand(<<k, "d">>, 12)]]
Lams(k, h) == Vec([j \in 1..3 |-> Cx(Uniform(<<k, j, "x">>, "-1.5", "1.5"), Uniform(<<k, j, "y">>, "-1.5", "1.5")) \oslash h])
Sess(i) ==
  LET k == KeyOf(i)  p == Pick(k)  h == RPow(10, Uniform(<<k, "h">>, -2, 1))
      c == [pde |-> p.pde, dis |-> p.dis, eps |-> RFmt(<<h>>), lam |-> NFmt(Lams(k, h))] IN
  << IF p.pde = "manakov" THEN With(c, [op |-> "mtables", T |-> "0 1"])
     ELSE IF IRand(<<k, "kind">>, 2) = 0 THEN With(c, [op |-> "tables", T |-> "0 1"])
     ELSE With(c, [op |-> "basis", der |-> IRand(<<k, "der">>, 2), lam |-> IF IRand(<<k, "zero">>, 12) = 0 THEN "0" ELSE NFmt(<<Lams(k, h)[1]>>)]) >>
(* ------------------------------------------------------------------------ *)
Known(a) == a.dis < CASE a.pde = "nse" -> 28 [] a.pde = "kdv" -> 56 [] OTHER -> 13
DegOf(a) == CASE a.pde = "nse" -> Degree(a.dis) [] a.pde = "kdv" -> Degree(KdvBase(a.dis)) [] OTHER -> ManDegree(a.dis)
UpOf(a) == CASE a.pde = "nse" -> Up(a.dis) [] a.pde = "kdv" -> Up(KdvBase(a.dis)) [] OTHER -> ManUp(a.dis)
OrdOf(a) == CASE a.pde = "nse" -> Order(a.dis) [] a.pde = "kdv" -> Order(KdvBase(a.dis)) [] OTHER -> ManOrder(a.dis)
(* from the basis of the scheme to that of the scattering data; schemes that *)
(* save a degree work with phi exp(-+ i l h / 2)                             *)
Basis(a, l) ==
  LET e == CExp((I \otimes l) \otimes (Num(a.eps) \oslash 2)) IN
  IF a.pde = "nse" THEN Id2
  ELSE IF DisName(KdvBase(a.dis)) \in {"2SPLIT2A", "2SPLIT2_MODAL"} THEN MMul(ToS(a.dis, l), Mat(1 \oslash e, 0, 0, e)) ELSE ToS(a.dis, l)
Deriv(F(_), l) == LET e == "1e-3" \otimes CAbs(l)
                      d(x) == MScale(1 \oslash (2 \otimes x), MAdd(F(l \oplus x), MScale(-1, F(l \ominus x))))
                  IN MAdd(MScale(Num(4) \oslash 3, d(e \oslash 2)), MScale(Num(-1) \oslash 3, d(e)))
Flat(m) == <<m[1][1], m[1][2], m[2][1], m[2][2]>>
Same(u, m, tol) == VDist(u, Flat(m)) \preceq (tol \otimes VMaxAbs(Flat(m)))
Block(t, r, c) == <<t[8*r + 2*c + 1], t[8*r + 2*c + 2], t[8*r + 2*c + 5], t[8*r + 2*c + 6]>>
J(h, a, r) ==
  LET l == NParse(a.lam) IN
  IF a.op # "basis" THEN
    IF ~Known(a) THEN [unknown |-> r.deg = 0 /\ r.up = 0 /\ r.order = 0]
    ELSE LET w == I \otimes (Num(a.eps) \otimes (IF a.pde = "manakov" /\ a.dis = 10 THEN Num(1) \oslash 3 ELSE Num(2) \oslash (DegOf(a)*UpOf(a)))) (* Suzuki: thirds *) IN
      [degree |-> r.deg = DegOf(a), samples |-> r.up = UpOf(a), order |-> r.order = OrdOf(a)]
      @@ (IF DegOf(a) = 0 THEN <<>> ELSE [circle |-> \A j \in 1..Len(l) : Near(NParse(r.z)[j], CExp(w \otimes l[j]), "1e-11")])
      @@ (IF DegOf(a) = 0 THEN <<>> ELSE [back |-> \A j \in 1..Len(l) : Near(NParse(r.back)[j], l[j], "1e-11")])
  ELSE IF ~Known(a) \/ (CEq(l[1], 0) /\ a.pde = "kdv") THEN [refused |-> r.ret # 0 /\ r.ret2 # 0]
  ELSE IF r.ret # 0 \/ r.ret2 # 0 THEN [success |-> FALSE]
  ELSE LET t == NParse(r.to)  f == NParse(r.from)  F(x) == Basis(a, x)  G(x) == KInv2(Basis(a, x)) IN
    IF a.der = 0 THEN [to |-> Same(t, F(l[1]), "1e-12"), from |-> Same(f, G(l[1]), "1e-12")]
    ELSE [to |-> Same(Block(t, 0, 0), F(l[1]), "1e-12") /\ Same(Block(t, 1, 1), F(l[1]), "1e-12") /\ VMaxAbs(Block(t, 0, 1)) \preceq 0,
          from |-> Same(Block(f, 0, 0), G(l[1]), "1e-12") /\ Same(Block(f, 1, 1), G(l[1]), "1e-12") /\ VMaxAbs(Block(f, 0, 1)) \preceq 0,
          derivative |-> a.pde = "nse" \/ (VDist(Block(t, 1, 0), Flat(Deriv(F, l[1]))) \preceq ("1e-8" \otimes (VMaxAbs(Flat(F(l[1]))) \otimes RMax(Num(a.eps), 1 \oslash CAbs(l[1]))))
                        /\ VDist(Block(f, 1, 0), Flat(Deriv(G, l[1]))) \preceq ("1e-8" \otimes (VMaxAbs(Flat(G(l[1]))) \otimes RMax(Num(a.eps), 1 \oslash CAbs(l[1])))))]
=============================================================================
