INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
CONSTRAINTS Bound BoundU
CONSTANTS
  Slots = {1, 2, 3}
  MaxLinks = 2
  MaxBytes = 3
  MaxSteps = 9
  Proto = "U"
INVARIANTS Conserved OnePlace LostGone Exclusive
CHECK_DEADLOCK FALSE
