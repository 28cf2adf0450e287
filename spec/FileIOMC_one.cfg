INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Files = {"a"}
  MaxLen = 5
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK AppendLaw BufLaw
PROPERTIES Others
CHECK_DEADLOCK FALSE
