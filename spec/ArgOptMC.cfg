SPECIFICATION Spec
CONSTANTS
  MaxArgs = 3
ACTION_CONSTRAINT Emit
INVARIANTS Agrees Explained
PROPERTIES Progress Ends
CHECK_DEADLOCK FALSE
