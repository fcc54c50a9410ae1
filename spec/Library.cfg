SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Design = "private copy"
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK OptionsKept SameResult KindKept NoLeak Announced OwnRoutine
