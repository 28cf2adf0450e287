INIT MCInit
NEXT MCNext
CONSTANTS
  Step = 10
  FromYear = 1890
  ToYear = 2110
INVARIANTS Agrees LastDay Anchor Normal Clocks Gaps
CHECK_DEADLOCK FALSE
