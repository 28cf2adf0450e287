INIT MCInit
NEXT MCNext
CONSTANTS
  Step = 10
  FromYear = 1
  ToYear = 10001
INVARIANTS Agrees LastDay Anchor Normal Clocks Gaps
CHECK_DEADLOCK FALSE
