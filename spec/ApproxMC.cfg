INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  MaxOps = 3
ACTION_CONSTRAINT Emit
INVARIANTS Inside Pairing
CHECK_DEADLOCK FALSE
