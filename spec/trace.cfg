SPECIFICATION TraceSpec
CONSTANTS
  NSessions <- N
  Session <- Sess
  Judge <- J
CHECK_DEADLOCK FALSE
POSTCONDITION Consumed
