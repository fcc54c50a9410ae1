-------------------------------- MODULE A04 ---------------------------------
(* Running out of memory.  Every session: one call with enough memory, then  *)
(* the same call with the 1st, 2nd, ... allocation failing (alone, or with   *)
(* all later ones), and the plain call again at the end.                     *)
EXTENDS Flow, Catalog
N == Tier(60, 600)
Sweep == Tier(150, 300)
Later == Tier(25, 100)
KeyOf(i) == <<Seed, "A04", i>>
Hook == [op |-> "sethook", h |-> "A"]
Base(k) == IF Chance(<<k, "dflt">>, 6) THEN WithDefaults(k) ELSE IF Chance(<<k, "peel">>, 5) THEN InvV(k) ELSE Valid(k)
FailAt(k, j) == IF j <= Sweep THEN j ELSE Sweep + RFloor(RPow(Uniform(<<k, "late", j>>, 0, 1), 3) \otimes 3000)
(* the temporaries the Fortran compiler generates inside the eigenvalue solver are told apart: one call for them *)
Hidden(k) == [NsevDefault(k) EXCEPT !.kappa = 1] @@ [failhidden |-> 1]
(* schemes that interleave derivatives, refined and filtered by the norm of the signal *)
Interleaved(k, i) == With([NsevDefault(k) EXCEPT !.kappa = 1, !.K = 2], [M |-> 0, cs |-> 0, o_discretization |-> 26 + (i % 2), o_bound_state_localization |-> 1, o_bound_state_filtering |-> 2,
   o_richardson_extrapolation_flag |-> (i \div 2) % 2, init |-> NFmt(<<Cx("0.1", "0.4"), Cx("-0.2", "0.9")>>)])
Sess(i) == IF i = N THEN <<Hook, Hidden(KeyOf(i))>> ELSE LET k == KeyOf(i)  a == With(IF i % 30 \in {1, 2} THEN Interleaved(k, i) ELSE Base(k), [fill |-> IRand(<<k, "fill">>, 256)]) IN
  <<Hook, a>> \o Vec([j \in 1..(Sweep + Later) |-> With(a, [failat |-> FailAt(k, j), failall |-> IRand(<<k, "all", j>>, 2)])]) \o <<a>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Usual(r) == [guard |-> r.guard = 1, no_leak |-> r.live = 0, inputs |-> r.insame = 1, options |-> r.optsame = 1 /\ r.dfltsame = 1, locations |-> r.badloc = 0]
J(h, a, r) ==
  IF a.op = "sethook" THEN [hook |-> r.got = "A"]
  ELSE Usual(r) @@
    (IF r.failed = 0 THEN [success |-> r.ret = 0, same |-> Len(h) = 1 \/ h[2].r.ret # 0 \/ SameResults(a, r, h[2].r)]
     ELSE [out_of_memory |-> Abs(r.ret) = 1, message |-> r.errs >= 1])
=============================================================================
