INIT MCInit
NEXT MCNext
VIEW MCView
ACTION_CONSTRAINT Emit
CONSTANTS
  MaxMsgs = 2
  MaxSteps = 4
INVARIANTS Once Ordered
PROPERTIES Grow NoFiles
CHECK_DEADLOCK FALSE
