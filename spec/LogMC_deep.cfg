INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxMsgs = 3
  MaxSteps = 5
INVARIANTS Once Ordered
PROPERTIES Grow NoFiles
CHECK_DEADLOCK FALSE
