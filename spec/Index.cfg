INIT Init
NEXT Next
VIEW View
CONSTANTS
  Files <- FilesSmall
  Roots = {"a", "b"}
  Subs = {"s"}
  Contents = {"p", "q"}
  MaxOps = 4
  Versioned = TRUE
  Version <- TheVersion
INVARIANTS Kept OneForEach UpdatedOnce NothingMoves AllMoves MainFirst LaterFirst RoundTrip
CHECK_DEADLOCK FALSE
