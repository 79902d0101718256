INIT SInit
NEXT SimNext
CONSTANTS
  Bins = {"b1", "b2", "b3"}
  Srcs = {"s1", "s2"}
  Codes = {"p1", "p2", "p3", "p4"}
  Indexes = {"", "good", "sub", "empty", "torn", "gone", "array", "subgone"}
  BadIndexes = {"torn", "gone", "array", "subgone"}
  Opts <- OptsAll
  Temps = {"", "t1", "t2"}
  Procs = {"0", "1", "3"}
  MaxRuns = 5
  MaxProducts = 4
  BinStates = {"none", "junk", "empty", "cut", "alien"}
  SrcStates = {"none", "bare", "torn", "inner", "area"}
  ListStates = {"ok", "torn", "gone", "array"}
INVARIANTS Emit ExitTells OnlyAsked NotDone Disabled InOrder BackAgain
CHECK_DEADLOCK FALSE
