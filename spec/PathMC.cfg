INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Alpha = {47, 92, 97, 126}
  MaxLen = 5
ACTION_CONSTRAINT Emit
INVARIANTS LawsHold
PROPERTIES PopShrinks
CHECK_DEADLOCK FALSE
