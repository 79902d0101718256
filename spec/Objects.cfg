SPECIFICATION Spec
CONSTANTS
  Kinds <- K
  RootKinds <- RK
  SubOf <- Sub
  Names <- N2
  MaxObjs = 4
  MaxPuts = 1
  MaxEdits = 1
INVARIANTS PathsUnique ChildrenFirst OnceEach RoundTrip BuiltIsTree EditsKeepTree
PROPERTY Finishes
VIEW View
CHECK_DEADLOCK FALSE
