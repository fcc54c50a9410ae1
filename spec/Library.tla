------------------------------ MODULE Library -------------------------------
(* The library as a state machine: several threads make calls that read      *)
(* options (given in place, in an object shared by the callers, or the       *)
(* defaults of the process), allocate, possibly repeat the computation with  *)
(* changed options (subsampling, Richardson extrapolation), warn, fail,      *)
(* release and return.  The recorded traces of the checks A01, A02, A04 and  *)
(* A06 are the Enter/Return boundaries of these behaviours; TLC checks here, *)
(* for every interleaving and every failing allocation, that the design      *)
(* (private copy of the options, one exit that releases, one message routine *)
(* per thread) has the properties those checks test.  The other designs are  *)
(* ones the library could be changed to; each must violate its property.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Design
Objects == {"inline", "shared", "default"}
Opts == {"full", "half"}                 \* what a computation may run with
Routines == {"none", "A", "B"}
Problems == {1, 2}                       \* 2 violates a documented requirement
MaxBufs == 2
VARIABLES hook,      \* message routine of every thread
          opt,       \* value of the option objects (inline: one per thread)
          st,        \* what every thread is doing
          got        \* what the last call to return gave its caller
vars == <<hook, opt, st, got>>
Idle == [ph |-> "idle", prob |-> 0, form |-> "inline", loc |-> "full", rich |-> FALSE, bufs |-> 0, code |-> 0, errs |-> 0, warns |-> 0, alien |-> 0, out |-> <<>>, oom |-> FALSE]
None == [prob |-> 0, rich |-> FALSE, code |-> 0, oom |-> FALSE, errs |-> 0, alien |-> 0, out |-> <<>>, bufs |-> 0]
Init == /\ hook = [t \in Threads |-> "A"]
        /\ opt = [o \in Objects |-> "full"]
        /\ st = [t \in Threads |-> Idle] /\ got = None
Routine(t) == IF Design = "global hook" THEN hook[CHOOSE u \in Threads : \A v \in Threads : u >= v] ELSE hook[t]
(* the options a computation of t reads now *)
Reads(t) == IF Design = "in place" THEN opt[st[t].form] ELSE st[t].loc
SetHook(t, r) == st[t].ph = "idle" /\ hook' = [hook EXCEPT ![t] = r] /\ UNCHANGED <<opt, st, got>>
Enter(t, p, f, rich) ==
  /\ st[t].ph = "idle"
  /\ st' = [st EXCEPT ![t] = [Idle EXCEPT !.ph = IF p = 2 THEN "fail" ELSE "work", !.code = IF p = 2 THEN 2 ELSE 0, !.prob = p, !.form = f, !.loc = opt[f], !.rich = rich]]
  /\ got' = None /\ UNCHANGED <<hook, opt>>
Alloc(t) ==
  /\ st[t].ph \in {"work", "again"} /\ st[t].bufs < MaxBufs
  /\ \/ st' = [st EXCEPT ![t].bufs = @ + 1]
     \/ st' = [st EXCEPT ![t].ph = "fail", ![t].code = IF Design = "wrong kind" THEN 5 ELSE 1, ![t].oom = TRUE]
  /\ UNCHANGED <<hook, opt, got>>
(* one computation with the options in effect; the extrapolated call does a   *)
(* second one with options of its own                                         *)
Compute(t) ==
  /\ st[t].ph \in {"work", "again"}
  /\ st' = [st EXCEPT ![t].out = Append(@, Reads(t)), ![t].ph = IF st[t].ph = "work" /\ st[t].rich THEN "change" ELSE "done"]
  /\ UNCHANGED <<hook, opt, got>>
Change(t) ==
  /\ st[t].ph = "change"
  /\ IF Design = "in place" THEN opt' = [opt EXCEPT ![st[t].form] = "half"] /\ st' = [st EXCEPT ![t].ph = "again"]
     ELSE opt' = opt /\ st' = [st EXCEPT ![t].loc = "half", ![t].ph = "again"]
  /\ UNCHANGED <<hook, got>>
Warn(t) ==
  /\ st[t].ph = "work" /\ st[t].warns = 0
  /\ st' = [st EXCEPT ![t].warns = 1, ![t].alien = @ + (IF Routine(t) = hook[t] THEN 0 ELSE 1)]
  /\ UNCHANGED <<hook, opt, got>>
Fail(t) ==
  /\ st[t].ph = "fail"
  /\ st' = [st EXCEPT ![t].ph = "exit", ![t].errs = IF Design = "silent" /\ st[t].oom THEN 0 ELSE 1, ![t].alien = @ + (IF Routine(t) = hook[t] THEN 0 ELSE 1),
                      ![t].bufs = IF Design = "early return" /\ st[t].oom THEN @ ELSE 0]
  /\ UNCHANGED <<hook, opt, got>>
Done(t) ==
  /\ st[t].ph = "done"
  /\ opt' = IF Design = "in place" /\ st[t].rich THEN [opt EXCEPT ![st[t].form] = st[t].loc] ELSE opt
  /\ st' = [st EXCEPT ![t].ph = "exit", ![t].bufs = 0]
  /\ UNCHANGED <<hook, got>>
(* the call returns: the caller sees code, messages, results *)
Return(t) ==
  /\ st[t].ph = "exit"
  /\ got' = [prob |-> st[t].prob, rich |-> st[t].rich, code |-> st[t].code, oom |-> st[t].oom, errs |-> st[t].errs, alien |-> st[t].alien,
                       out |-> IF st[t].code = 0 THEN st[t].out ELSE <<>>, bufs |-> st[t].bufs]
  /\ st' = [st EXCEPT ![t] = Idle] /\ UNCHANGED <<hook, opt>>
Next == \E t \in Threads : \/ \E r \in Routines : SetHook(t, r)
                           \/ \E p \in Problems, f \in {"shared", "default"}, rich \in BOOLEAN : Enter(t, p, f, rich)
                           \/ Alloc(t) \/ Compute(t) \/ Change(t) \/ Warn(t) \/ Fail(t) \/ Done(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Compute(t) \/ Change(t) \/ Fail(t) \/ Done(t) \/ Return(t))
(* -------------------------------------------------------------- properties *)
TypeOK == /\ hook \in [Threads -> Routines] /\ opt \in [Objects -> Opts]
          /\ \A t \in Threads : st[t].ph \in {"idle", "work", "change", "again", "done", "fail", "exit"} /\ st[t].bufs \in 0..MaxBufs
(* A01, A02: nobody's options change, not even while a call is under way      *)
OptionsKept == \A o \in Objects : opt[o] = "full"
(* A01, A02: the result is that of the problem, whatever happened before or    *)
(* happens at the same time                                                   *)
Alone(rich) == IF rich THEN <<"full", "half">> ELSE <<"full">>
SameResult == got.prob = 1 /\ got.code = 0 => got.out = Alone(got.rich)
(* A03, A04, A06: the kind of the failure reaches the caller                  *)
KindKept == got.prob = 0 \/ got.code = (IF got.prob = 2 THEN 2 ELSE IF got.oom THEN 1 ELSE 0)
(* A04 *)
NoLeak == got.bufs = 0
(* A06 *)
Announced == (got.code # 0) <=> (got.errs > 0)
(* A02 *)
OwnRoutine == got.alien = 0
(* every call returns                                                         *)
Returns == \A t \in Threads : st[t].ph # "idle" ~> st[t].ph = "idle"
=============================================================================
