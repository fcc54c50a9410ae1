-------------------------------- MODULE A06 ---------------------------------
(* Failures and warnings reach the message routine of the caller.  State: the *)
(* routine installed last.  Every session sets and queries the routine        *)
(* between calls that succeed, warn, are rejected, or run out of memory.      *)
EXTENDS Flow, Catalog
(* Sessions 1 to Words are the histories of three (thorough: four) steps over *)
(* Letters, every one; the others are longer and chosen at random.          *)
Letters == <<"A", "B", "R", "none", "default", "get", "call", "other", "bad", "oom">>
WLen == Tier(3, 4)
Words == Tier(1000, 10000)
N == Words + Tier(200, 2600)
KeyOf(i) == <<Seed, "A06", i>>
Hooks == <<"A", "B", "R", "none", "default", "A", "none">>
Capacity(c, n) == IF c.op \in {"nsev", "kdvv", "manakovv"} /\ c.bs = 1 /\ ~Has(c, "init") THEN With(c, [K |-> n]) ELSE IF c.op = "nsep" /\ ~Has(c, "init") THEN With(c, [K |-> n, M |-> n]) ELSE c
Problem(k, j) == LET c == IF j = 2 THEN WithDefaults(<<k, j>>) ELSE Valid(<<k, j>>) IN Capacity(c, IF c.op = "nsep" \/ j = 3 THEN 1 + IRand(<<k, j, "cap">>, 2) ELSE c.K)
Pick(k, s) == LET n == IRand(<<s, "what">>, 12)  j == 1 + IRand(<<s, "j">>, 3)  c == With(Problem(k, j), [cid |-> j, capture |-> IRand(<<s, "c">>, 2)]) IN
  CASE n <= 4 -> c
    [] n = 5 -> With(c, [failat |-> 1 + IRand(<<s, "at">>, 60), failall |-> IRand(<<s, "all">>, 2)])
    [] n \in {6, 7, 8} -> With(PickSeq(<<s, "bad">>, AllBad(<<k, 4>>)), [cid |-> 0, capture |-> IRand(<<s, "c">>, 2)])
    [] n = 9 -> [op |-> "gethook"]
    [] OTHER -> [op |-> "sethook", h |-> PickSeq(<<s, "h">>, Hooks)]
Letter(k, s, l) == LET c == With(Problem(k, 1), [cid |-> 1, capture |-> 0]) IN
  CASE l \in {"A", "B", "R", "none", "default"} -> [op |-> "sethook", h |-> l]
    [] l = "get" -> [op |-> "gethook"]
    [] l = "call" -> c
    [] l = "other" -> With(Problem(k, 3), [cid |-> 3, capture |-> 1])
    [] l = "bad" -> With(PickSeq(<<s, "bad">>, AllBad(<<k, 4>>)), [cid |-> 0, capture |-> 1])
    [] OTHER -> With(c, [failat |-> 1 + IRand(<<s, "at">>, 30), failall |-> IRand(<<s, "all">>, 2)])
Pow(b, j) == IF j = 0 THEN 1 ELSE IF j = 1 THEN b ELSE IF j = 2 THEN b*b ELSE b*b*b
Word(i) == LET k == KeyOf(i)  n == i - 1 IN Vec([j \in 1..WLen |-> Letter(k, <<k, j>>, Letters[1 + ((n \div Pow(10, j - 1)) % 10)])])
Sess(i) == IF i <= Words THEN Word(i) ELSE LET k == KeyOf(i) IN <<[op |-> "gethook"]>> \o Vec([n \in 1..14 |-> Pick(k, <<k, n>>)])
(* ------------------------------------------------------------------------ *)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Installed(h) == LET S == {n \in 1..Len(h) : h[n].a.op = "sethook"} IN IF S = {} THEN "default" ELSE h[CHOOSE n \in S : \A m \in S : m <= n].a.h
Plain(s) == s.a.op \notin {"sethook", "gethook"} /\ s.a.cid # 0 /\ s.r.failed = 0
Before(h, j) == {n \in 1..Len(h) : Plain(h[n]) /\ h[n].a.cid = j}
First(S) == CHOOSE n \in S : \A m \in S : n <= m
(* warnings of an earlier call on the same problem that could be observed: -1 none *)
Warns(h, n) == LET s == h[n] w == Installed(SubSeq(h, 1, n - 1)) IN IF w \in {"A", "B", "R"} THEN s.r.warns ELSE IF w = "default" /\ s.a.capture = 1 THEN s.r.printedwarns ELSE -1
(* which ones of the points are stored when they do not all fit depends on their order, which rounding affects *)
Cut(a, r) == a.eig = 1 /\ (Get(r, "Kout", -1) = a.K \/ (a.op = "nsep" /\ Get(r, "Mout", -1) = a.M))
J(h, a, r) ==
  CASE a.op = "sethook" -> [set |-> r.got = a.h]
    [] a.op = "gethook" -> [get |-> r.got = Installed(h)]
    [] OTHER ->
      LET w == Installed(h)  own == w \in {"A", "B", "R"}
          counts == [A |-> r.hkA, B |-> r.hkB, R |-> r.hkR]
          S == IF Plain([a |-> a, r |-> r]) THEN Before(h, a.cid) ELSE {}
          me == Append(h, [a |-> a, r |-> r])
          V == {n \in S : Warns(h, n) >= 0} IN
      [routine |-> \A x \in {"A", "B", "R"} : IF w = x THEN counts[x] = r.msgs ELSE counts[x] = 0,
       message |-> IF own THEN (r.errs > 0) = (r.ret # 0) ELSE r.msgs = 0,
       located |-> r.badloc = 0,
       only_messages |-> ~own \/ r.msgs = r.errs + r.warns,
       printed |-> a.capture = 0 \/ (IF w = "default" THEN (r.printederrs > 0) = (r.ret # 0) /\ (r.printed > 0) = (r.printederrs + r.printedwarns > 0) ELSE r.printed = 0),
       kind |-> IF a.cid = 0 THEN Abs(r.ret) = a.code ELSE IF r.failed > 0 THEN Abs(r.ret) = 1 ELSE r.ret = 0,
       same |-> S = {} \/ Cut(a, r) \/ SameResults(a, r, h[First(S)].r),
       same_warnings |-> a.eig = 1 \/ V = {} \/ Warns(me, Len(me)) < 0 \/ Warns(me, Len(me)) = Warns(h, First(V))]
=============================================================================
