-------------------------------- MODULE A02 ---------------------------------
(* Concurrent calls do not influence each other.  State of the library: none *)
(* that outlives a call except, per thread, the installed message routine.   *)
(* A session makes every call alone, then from two or three threads under    *)
(* a schedule chosen here, then alone again.  The schedule is a cyclic list  *)
(* "thread:steps", a step being a basic block of the library or one of its   *)
(* allocations; only the named thread runs meanwhile.  "free" leaves the     *)
(* threads unsynchronized.  The threads share the signal arrays and, where   *)
(* the form says so, the option objects.                                     *)
EXTENDS Flow, Catalog
N == Tier(400, 4000)
KeyOf(i) == <<Seed, "A02", i>>
ObjNames == <<"one", "two", "dflt">>
Opt(c) == [f \in {g \in DOMAIN c : Len(g) > 2 /\ SubSeq(g, 1, 2) = "o_"} |-> c[f]]
Mk(j, c) == [op |-> "mkopts", kind |-> c.op, name |-> ObjNames[j]] @@ Opt(c)
Mine(k, j) ==
  LET n == IRand(<<k, "same">>, 4)  a == Valid(<<k, 1>>) IN
  CASE j = 1 -> a
    [] j = 3 -> WithDefaults(<<k, 3>>)
    [] n = 3 -> Valid(<<k, 2>>)
    [] a.op = "nsev" -> NsevV(<<k, 2>>) [] a.op = "kdvv" -> KdvvV(<<k, 2>>) [] a.op = "manakovv" -> ManV(<<k, 2>>) [] a.op = "nsep" -> NsepV(<<k, 2>>) [] OTHER -> InvV(<<k, 2>>)
(* the signals of the problems become arrays common to all threads *)
Arrays(j, c) == (IF Has(c, "q") THEN <<[op |-> "array", name |-> "q" \o ToString(j), v |-> c.q]>> ELSE <<>>) \o
                (IF Has(c, "q2") THEN <<[op |-> "array", name |-> "p" \o ToString(j), v |-> c.q2]>> ELSE <<>>)
Shared(j, c) == With(c, (IF Has(c, "q") THEN [q |-> "@q" \o ToString(j)] ELSE <<>>) @@ (IF Has(c, "q2") THEN [q2 |-> "@p" \o ToString(j)] ELSE <<>>))
Form(k, j, c) == With(Shared(j, c), [cid |-> j, hook |-> "A", thread |-> 0, opts |-> IF IRand(<<k, "form">>, 3) = 0 THEN "inline" ELSE IF j = 3 /\ Chance(<<k, "null">>, 2) THEN "null" ELSE "obj:" \o ObjNames[j]])
Hooks == <<"A", "B", "none", "default">>
Pick(k, s, hk) ==
  LET n == IRand(<<s, "what">>, 12)  j == 1 + IRand(<<s, "j">>, 3) IN
  CASE n = 0 -> With(PickSeq(<<s, "bad">>, AllBad(<<k, 4>>)), [cid |-> 0, hook |-> hk])
    [] n = 1 -> With(Form(s, j, Mine(k, j)), [cid |-> 0, failat |-> 1 + IRand(<<s, "at">>, 40), failall |-> IRand(<<s, "all">>, 2), hook |-> hk])
    [] OTHER -> With(Form(s, j, Mine(k, j)), [hook |-> hk])
(* lengths of the turns: from one step to several thousand *)
Turn(s) == RRound(CRe(CExp(Uniform(<<s, "turn">>, 0, IF Chance(<<s, "long">>, 8) THEN 9 ELSE "5.5"))))
Turns(s, n) == IF Chance(<<s, "free">>, 6) THEN "free"
               ELSE Fold(LAMBDA acc, m : acc \o (IF acc = "" THEN "" ELSE " ") \o ToString(1 + IRand(<<s, m, "who">>, n)) \o ":" \o RFmt(<<Turn(<<s, m>>)>>), "", Vec([m \in 1..40 |-> m]))
Par(k, s) ==
  LET n == 2 + IRand(<<s, "n">>, 2)
      hk == Vec([t \in 1..n |-> PickSeq(<<s, t, "hook">>, IF t = 3 THEN <<"inherit">> ELSE <<"A", "B", "A", "none">>)])
      each == 2 + IRand(<<s, "each">>, 2) IN
  [op |-> "par", n |-> n, sched |-> Turns(s, n), hooks |-> Fold(LAMBDA acc, h : acc \o (IF acc = "" THEN "" ELSE ",") \o h, "", hk),
   calls |-> Vec([m \in 1..(n*each) |-> LET t == 1 + ((m - 1) \div each) IN [t |-> t, c |-> Pick(k, <<s, m>>, hk[t])]])]
Sess(i) == LET k == KeyOf(i)  c == Vec([j \in 1..3 |-> Mine(k, j)]) IN
  <<[op |-> "sethook", h |-> "A"]>> \o Arrays(1, c[1]) \o Arrays(2, c[2]) \o Arrays(3, c[3]) \o Vec([j \in 1..3 |-> Mk(j, c[j])]) \o
  Vec([j \in 1..3 |-> Form(<<k, j, "ref">>, j, c[j])]) \o <<Par(k, <<k, "p1">>), Par(k, <<k, "p2">>)>> \o
  Vec([j \in 1..3 |-> Form(<<k, j, "after">>, j, c[j])]) \o <<[op |-> "gethook"]>>
(* ------------------------------------------------------------------------ *)
Expected(a) == IF a.hook = "inherit" THEN "default" ELSE a.hook
Reference(h, j) == h[CHOOSE n \in 1..Len(h) : h[n].a.op \notin {"mkopts", "array", "sethook", "par"} /\ h[n].a.cid = j /\ \A m \in 1..(n - 1) : h[m].a.op \in {"mkopts", "array", "sethook", "par"} \/ h[m].a.cid # j].r
(* the first three calls on the problems are the references *)
IsRef(h, a) == a.thread = 0 /\ \A m \in 1..Len(h) : h[m].a.op # "par"
Messages(a, r, f) == LET hk == Expected(a) IN
  /\ r.hkA = (IF hk = "A" THEN r.msgs ELSE 0) /\ r.hkB = (IF hk = "B" THEN r.msgs ELSE 0) /\ r.hkR = 0
  /\ (hk \in {"A", "B"} => r.badloc = 0 /\ r.msgs = r.errs + r.warns)
  /\ (hk \in {"A", "B"} /\ r.ret # 0 => r.errs > 0)
  /\ (hk \notin {"A", "B"} => r.msgs = 0)
  /\ (hk \in {"A", "B"} /\ Has(f, "errs") => r.errs = f.errs /\ (a.eig = 1 \/ r.warns = f.warns))
J(h, a, r) ==
  CASE a.op \in {"sethook", "gethook"} -> [hook |-> r.got = "A"]
    [] a.op = "array" -> [array |-> r.len > 0]
    [] a.op = "mkopts" -> [made |-> r.opts # ""]
    [] a.op = "par" -> [hook |-> r.hookafter = "A"]
    [] OTHER ->
      [guard |-> r.guard = 1, no_leak |-> r.live = 0, inputs |-> r.insame = 1, option_object |-> r.optsame = 1, defaults |-> r.dfltsame = 1,
       own_hook |-> Get(r, "hookafter", Expected(a)) = Expected(a)] @@
      (IF a.cid = 0 THEN [messages |-> Messages(a, r, <<>>), rejected |-> Has(a, "code") => r.ret # 0]
       ELSE IF IsRef(h, a) THEN [success |-> r.ret = 0, messages |-> Messages(a, r, <<>>)]
       ELSE LET f == Reference(h, a.cid) IN [success |-> r.ret = 0, messages |-> Messages(a, r, f), same |-> SameResults(a, r, f)])
=============================================================================
