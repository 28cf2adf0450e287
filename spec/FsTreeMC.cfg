INIT MCInit
NEXT MCNext
VIEW MCView
CONSTANTS
  Names1 = {"a", "b"}
  MaxDepth = 2
  MaxEntries = 4
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANTS TreeOK RmrExact MkdirsExact MkdirExact RenameExact ListExact
CHECK_DEADLOCK FALSE
