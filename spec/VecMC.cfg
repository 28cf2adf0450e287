INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Slots = {0, 1}
  Vals = {"a", "b"}
  MaxLen = 2
  MaxCap = 3
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TypeOK CapInv DeadSlotsEmpty LawPushPop LawWalk LawFind
PROPERTY Indep
CHECK_DEADLOCK FALSE
