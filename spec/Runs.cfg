INIT Init
NEXT Next
VIEW View
CONSTANTS
  Bins = {"b1", "b2"}
  Srcs = {"s1", "s2"}
  Codes = {"p1", "p2"}
  Indexes = {"", "good", "torn"}
  BadIndexes = {"torn"}
  Opts <- OptsSmall
  Temps = {""}
  Procs = {"0"}
  MaxRuns = 1
  MaxProducts = 2
  BinStates = {"none", "junk"}
  SrcStates = {"none", "torn"}
  ListStates = {"ok", "torn"}
INVARIANTS ExitTells OnlyAsked NotDone Disabled InOrder BackAgain
CHECK_DEADLOCK FALSE
