-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* How a specification is bound to the code.  A property module says which *)
(* sessions (sequences of calls) exist and which responses are allowed.    *)
(*  - GenSpec enumerates the sessions; they are written out, executed by   *)
(*    the driver against the library, and the responses recorded.          *)
(*  - TraceSpec reads the record back: one behaviour per session, one step *)
(*    per call.  A step is either Conform (the specification allows the    *)
(*    response in that state) or Deviate.  TLC accepts the record iff      *)
(*    every session is consumed to its end and no Deviate was taken.       *)
(***************************************************************************)
EXTENDS Conf, Json
CONSTANTS NSessions,        \* number of sessions
          Session(_),       \* i |-> sequence of calls (records with field op)
          Judge(_, _, _)    \* (history, call, response) |-> record of named clauses
VARIABLES sid,              \* the session
          pos,              \* number of calls consumed
          good                \* no deviation so far
vars == <<sid, pos, good>>
(* ------------------------------------------------------------ generation *)
GenInit == sid \in 1 .. NSessions /\ pos = 0 /\ good = TRUE
Emit == /\ pos = 0
        /\ PrintT("SESSION " \o ToString(sid) \o " " \o ToJson(Session(sid)))
        /\ pos' = 1 /\ UNCHANGED <<sid, good>>
GenSpec == GenInit /\ [][Emit]_vars
(* ------------------------------------------------------ trace validation *)
Traces == JsonDeserialize("trace.json")
Steps == Traces[sid].steps
TraceInit == sid \in 1 .. Len(Traces) /\ pos = 0 /\ good = TRUE
Failing(v) == {c \in DOMAIN v : ~v[c]}
Verdict == LET st == Steps[pos + 1] IN
  IF Has(st.r, "crash") THEN [crash |-> FALSE]
  ELSE IF Has(st.r, "timeout") THEN [terminates |-> FALSE]
  ELSE Guarded(Judge(SubSeq(Steps, 1, pos), st.a, st.r))
Consume == /\ pos < Len(Steps)
           /\ LET f == Failing(Verdict) IN
              /\ good' = (good /\ f = {})
              /\ IF f = {} THEN TRUE ELSE PrintT("DEVIATION " \o ToJson([id |-> Traces[sid].id, step |-> pos + 1, clauses |-> AsSeq(f)]))
           /\ pos' = pos + 1 /\ UNCHANGED sid
TraceSpec == TraceInit /\ [][Consume]_vars

Total == Fold(LAMBDA n, t : n + Len(t.steps) + 1, 0, Traces)
Consumed == TLCGet("stats").distinct = Total
=============================================================================
