INIT Init
NEXT NextShape
CONSTANTS
  Kinds <- K
  RootKinds <- RK
  SubOf <- Sub
  Names <- N5
  MaxObjs = 9
  MaxPuts = 2
  MaxEdits = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
