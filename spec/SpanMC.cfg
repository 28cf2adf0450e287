INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Slots = {0, 1}
  Vals = {"a", "b"}
  N = 3
  Ext = 4
ACTION_CONSTRAINT Emit
INVARIANTS Bounded
PROPERTIES OneCell
CHECK_DEADLOCK FALSE
