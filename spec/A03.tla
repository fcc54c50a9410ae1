-------------------------------- MODULE A03 ---------------------------------
(* Invalid arguments are rejected without side effects; optional arguments   *)
(* may be left out.  Every session: a violation of one requirement (or a     *)
(* call with arguments left out), and the same transform used properly       *)
(* before and after it.                                                      *)
EXTENDS Flow, Catalog
Rounds == Tier(4, 40)
NBad == Len(AllBad(<<0>>))
NOpt == Len(Optional(<<0>>))
N == Rounds*(NBad + NOpt)
Round(i) == (i - 1) \div (NBad + NOpt)
Nth(i) == 1 + ((i - 1) % (NBad + NOpt))
KeyOf(i) == <<Seed, "A03", Round(i)>>
Hook == [op |-> "sethook", h |-> "A"]
Sess(i) == LET n == Nth(i)  k == KeyOf(i) IN
  IF n <= NBad THEN LET c == AllBad(k)[n] IN <<Hook, With(c, [fill |-> IRand(<<k, "f">>, 256)])>>
  ELSE <<Hook, Optional(k)[n - NBad]>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Usual(r) == [guard |-> r.guard = 1, no_leak |-> r.live = 0, inputs |-> r.insame = 1, options |-> r.optsame = 1 /\ r.dfltsame = 1, locations |-> r.badloc = 0]
J(h, a, r) ==
  IF a.op = "sethook" THEN [hook |-> r.got = "A"]
  ELSE Usual(r) @@
    (IF a.code # 0 THEN [rejected |-> r.ret # 0, kind |-> Abs(r.ret) = a.code, no_output |-> r.touched = 0 \/ a.opt = 1, message |-> r.errs >= 1]
     ELSE [accepted |-> r.ret = 0, silent |-> r.errs = 0])
=============================================================================
