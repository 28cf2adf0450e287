INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Sizes = {1, 3}
  MaxAllocs = 5
  MaxReallocs = 2
  Owners = {0, 1}
CONSTRAINT Bound
INVARIANTS TypeOK CurInv CountInv FreedInv
PROPERTIES Total Frame
CHECK_DEADLOCK FALSE
