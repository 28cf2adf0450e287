INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Sizes = {1, 3}
  MaxAllocs = 4
  MaxReallocs = 2
  Owners = {0}
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK CurInv CountInv FreedInv
PROPERTIES Total Frame
CHECK_DEADLOCK FALSE
