SPECIFICATION Spec
INVARIANT Laws
CONSTANTS
  MaxRun = 2
  MaxRuns = 3
  Bytes = {0, 7}
CHECK_DEADLOCK FALSE
