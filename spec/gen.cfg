SPECIFICATION GenSpec
CONSTANTS
  NSessions <- N
  Session <- Sess
  Judge <- J
CHECK_DEADLOCK FALSE
