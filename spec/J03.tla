-------------------------------- MODULE J03 ---------------------------------
(* The default options are the documented ones and are what a call without   *)
(* options uses; the library tells its version.                              *)
EXTENDS Flow, Catalog
N == Tier(200, 2000)
KeyOf(i) == <<Seed, "J03", i>>
Kinds == <<"nsev", "nsep", "kdvv", "manakovv", "inverse">>
Documented == [
  nsev |-> [bound_state_filtering |-> "2", bound_state_localization |-> "2", niter |-> "100", tol |-> "-1", discspec_type |-> "0", contspec_type |-> "0", normalization_flag |-> "1",
            discretization |-> "11", richardson_extrapolation_flag |-> "0", bounding_box0 |-> "nan", bounding_box1 |-> "nan", bounding_box2 |-> "nan", bounding_box3 |-> "nan"],
  nsep |-> [localization |-> "0", filtering |-> "2", bounding_box0 |-> "-inf", bounding_box1 |-> "inf", bounding_box2 |-> "-inf", bounding_box3 |-> "inf", max_evals |-> "50", discretization |-> "4",
            normalization_flag |-> "1", floquet_range0 |-> "-1", floquet_range1 |-> "1", points_per_spine |-> "2", Dsub |-> "0", tol |-> "-1"],
  kdvv |-> [bound_state_localization |-> "1", niter |-> "10", discspec_type |-> "0", contspec_type |-> "0", normalization_flag |-> "1", discretization |-> "39", richardson_extrapolation_flag |-> "0", grid_spacing |-> "0"],
  manakovv |-> [bound_state_filtering |-> "2", bound_state_localization |-> "2", niter |-> "10", Dsub |-> "0", discspec_type |-> "0", contspec_type |-> "0", normalization_flag |-> "1", discretization |-> "3", richardson_extrapolation_flag |-> "0"],
  inverse |-> [discretization |-> "4", contspec_type |-> "0", contspec_inversion_method |-> "0", discspec_type |-> "0", max_iter |-> "100", oversampling_factor |-> "8"]]
RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Listed(S \ {x})
(* one option given explicitly, with its documented value *)
Plain == [nsev |-> {"bound_state_filtering", "bound_state_localization", "niter", "tol", "discspec_type", "contspec_type", "normalization_flag", "discretization", "richardson_extrapolation_flag"},
          nsep |-> {"localization", "filtering", "max_evals", "discretization", "normalization_flag", "points_per_spine", "Dsub", "tol"},
          kdvv |-> DOMAIN Documented.kdvv, manakovv |-> DOMAIN Documented.manakovv, inverse |-> DOMAIN Documented.inverse]
Masked(k) == Vec([j \in 1..2 |-> [op |-> "version", given |-> IRand(<<k, j, "mask">>, 16)]])
Sess(i) ==
  LET k == KeyOf(i)  a == WithDefaults(k)  kind == KindOf(a.op)  names == Listed(Plain[kind])
      c == [f \in {g \in DOMAIN a : Len(g) < 2 \/ SubSeq(g, 1, 2) # "o_"} |-> a[f]]
      one(j) == LET n == names[1 + IRand(<<k, "n", j>>, Len(names))] IN With(c, "o_" \o n :> Documented[kind][n]) IN
  <<[op |-> "dflt", kind |-> kind], With(c, [opts |-> "null"]), With(c, [opts |-> "inline"])>> \o Vec([j \in 1..3 |-> one(j)]) \o Masked(k)
(* every documented entry occurs in the list of options *)
Contains(s, t) == \E j \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, j, j + Len(t) - 1) = t
J(h, a, r) ==
  CASE a.op = "dflt" -> [documented |-> \A f \in DOMAIN Documented[a.kind] : Contains(" " \o r.opts, " " \o f \o "=" \o Documented[a.kind][f] \o " ")]
    [] a.op = "version" -> [version |-> IF a.given = 15 THEN r.ret = 0 /\ r.major >= 0 /\ r.minor < 99 /\ r.patch < 99 /\ r.suffix # "unset"
                                         ELSE r.ret = 2 /\ r.suffix = "unset"]
    [] Len(h) = 1 -> [success |-> r.ret = 0]
    [] OTHER -> [same |-> r.ret = h[2].r.ret /\ (r.ret # 0 \/ SameResults(a, r, h[2].r)), messages |-> r.errs = h[2].r.errs /\ r.warns = h[2].r.warns]
=============================================================================
