INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  N = 4
  R = 14
ACTION_CONSTRAINT Emit
INVARIANTS SwapTwice
PROPERTIES Frame
CHECK_DEADLOCK FALSE
