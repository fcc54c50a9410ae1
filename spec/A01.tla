-------------------------------- MODULE A01 ---------------------------------
(* Results depend only on the arguments of a call.  Every session is a       *)
(* history over a few problems: calls with options given in place, through a *)
(* shared option object, or left out; calls that are rejected; calls that    *)
(* run out of memory; changed message routines; arbitrary heap contents.     *)
(* Calls on the same problem (field cid) must give the same results.         *)
EXTENDS Flow, Catalog
(* Sessions 1 to Words: every history of three (thorough: four) steps over    *)
(* Letters between two                                                        *)
(* calls on the same problem; the others are longer and chosen at random.     *)
Letters == <<"call", "object", "other", "defaults", "bad", "oom", "hookA", "none", "dflt">>
WLen == Tier(3, 4)
Words == Tier(729, 6561)
N == Words + Tier(160, 2600)
Len_(k) == 9 + IRand(<<k, "len">>, 5)
KeyOf(i) == <<Seed, "A01", i>>
Fill(k) == IRand(<<k, "fill">>, 257) - 1
Opt(c) == [f \in {g \in DOMAIN c : Len(g) > 2 /\ SubSeq(g, 1, 2) = "o_"} |-> c[f]]
Mk(name, c) == [op |-> "mkopts", kind |-> c.op, name |-> name] @@ Opt(c)
(* the problems of a session: 1, 2 with options, 3 with default options.     *)
(* The second is often the first with one argument changed.                  *)
Vary(k, c) == LET n == IRand(<<k, "vary">>, 3) IN
  CASE n = 0 /\ Has(c, "kappa") /\ c.op \in {"nsev", "manakovv"} /\ c.bs = 0 /\ ~(c.op = "nsev" /\ c.o_discretization = 0) -> With(c, [kappa |-> 0 - c.kappa])
    [] n = 1 /\ Has(c, "o_normalization_flag") -> With(c, [o_normalization_flag |-> 1 - c.o_normalization_flag])
    [] OTHER -> Valid(<<k, 2>>)
Problem(k, j) == LET a == Valid(<<k, 1>>) IN
  CASE j = 1 -> a [] j = 2 -> IF Chance(<<k, "v">>, 2) THEN Vary(k, a) ELSE Valid(<<k, 2>>) [] OTHER -> WithDefaults(<<k, 3>>)
ObjNames == <<"one", "two", "dflt">>
Form(k, j, c) == LET n == IRand(<<k, "form">>, IF j = 3 THEN 3 ELSE 2) IN
  With(c, [cid |-> j, fill |-> Fill(k), opts |-> CASE n = 0 -> "inline" [] n = 1 -> "obj:" \o ObjNames[j] [] OTHER -> "null"])
Pick(k, s) == LET n == IRand(<<s, "what">>, 10)  j == 1 + IRand(<<s, "j">>, 3)  c == Form(s, j, Problem(k, j)) IN
  CASE n <= 5 -> c
    [] n = 6 -> With(c, [failat |-> 1 + IRand(<<s, "at">>, 60), failall |-> IRand(<<s, "all">>, 2)])
    [] n = 7 -> With(PickSeq(<<s, "bad">>, AllBad(<<k, 4>>)), [fill |-> Fill(s), cid |-> 0])
    [] n = 8 -> [op |-> "sethook", h |-> PickSeq(<<s, "h">>, <<"A", "B", "none", "A">>)]
    [] OTHER -> [op |-> "dflt", kind |-> Problem(k, j).op]
Letter(k, s, l) == LET c == With(Problem(k, 1), [cid |-> 1, fill |-> Fill(s), opts |-> "inline"]) IN
  CASE l = "call" -> c
    [] l = "object" -> With(c, [opts |-> "obj:one"])
    [] l = "other" -> Form(s, 2, Problem(k, 2))
    [] l = "defaults" -> With(Problem(k, 3), [cid |-> 3, fill |-> Fill(s), opts |-> "null"])
    [] l = "bad" -> With(PickSeq(<<s, "bad">>, AllBad(<<k, 4>>)), [fill |-> Fill(s), cid |-> 0])
    [] l = "oom" -> With(c, [failat |-> 1 + IRand(<<s, "at">>, 40), failall |-> IRand(<<s, "all">>, 2)])
    [] l = "hookA" -> [op |-> "sethook", h |-> "A"]
    [] l = "none" -> [op |-> "sethook", h |-> "none"]
    [] OTHER -> [op |-> "dflt", kind |-> Problem(k, 1).op]
Pow(b, j) == IF j = 0 THEN 1 ELSE IF j = 1 THEN b ELSE IF j = 2 THEN b*b ELSE b*b*b
Word(i) == LET k == KeyOf(i)  n == i - 1  f(j) == Letter(k, <<k, j, "w">>, IF j \in {0, WLen + 1} THEN "object" ELSE Letters[1 + ((n \div Pow(9, j - 1)) % 9)]) IN
  <<Mk(ObjNames[1], Problem(k, 1)), Mk(ObjNames[2], Problem(k, 2))>> \o Vec([j \in 1..(WLen + 2) |-> f(j - 1)])
Sess(i) == IF i <= Words THEN Word(i) ELSE LET k == KeyOf(i) IN
  <<[op |-> "sethook", h |-> "A"]>> \o Vec([j \in 1..3 |-> Mk(ObjNames[j], Problem(k, j))]) \o Vec([j \in 1..5 |-> [op |-> "dflt", kind |-> <<"nsev", "kdvv", "manakovv", "nsep", "inverse">>[j]]]) \o
  <<Form(<<k, 0>>, 1 + IRand(<<k, "first">>, 3), Problem(k, 1 + IRand(<<k, "first">>, 3)))>> \o Vec([n \in 1..Len_(k) |-> Pick(k, <<k, n>>)])
(* ------------------------------------------------------------------------ *)
Transforms == {"nsev", "kdvv", "manakovv", "nsep", "inverse"}
Succeeds(s) == s.a.op \in Transforms /\ s.a.cid # 0 /\ s.r.failed = 0
Earlier(h, j) == {n \in 1..Len(h) : Succeeds(h[n]) /\ h[n].a.cid = j}
First(S) == CHOOSE n \in S : \A m \in S : n <= m
J(h, a, r) ==
  CASE a.op = "sethook" -> [hook |-> r.got = a.h]
    [] a.op = "mkopts" -> [made |-> r.opts # ""]
    [] a.op = "dflt" -> LET S == {n \in 1..Len(h) : h[n].a.op = "dflt" /\ h[n].a.kind = a.kind} IN [defaults |-> S = {} \/ h[First(S)].r.opts = r.opts]
    [] OTHER ->
      [guard |-> r.guard = 1, no_leak |-> r.live = 0, inputs |-> r.insame = 1, option_object |-> r.optsame = 1, defaults |-> r.dfltsame = 1] @@
      (IF a.cid = 0 THEN [rejected |-> r.ret # 0]
       ELSE IF r.failed > 0 THEN [failed |-> r.ret # 0]
       ELSE LET S == Earlier(h, a.cid) IN [success |-> r.ret = 0, same |-> S = {} \/ SameResults(a, r, h[First(S)].r)])
=============================================================================
