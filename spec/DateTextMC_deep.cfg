INIT MCInit
NEXT MCNext
CONSTANTS
  MaxEdits = 2
  Chars = {48, 53, 57, 45, 58, 84, 32, 97, 47, 255, 10}
ACTION_CONSTRAINT Emit
INVARIANTS Disjoint Trip
CHECK_DEADLOCK FALSE
