INIT SInit
NEXT SimNext
CONSTANTS
  Files <- FilesMany
  Roots = {"a", "b", "c"}
  Subs = {"s", "t"}
  Contents = {"p", "q"}
  MaxOps = 9
  Versioned = TRUE
  Version <- TheVersion
INVARIANTS Emit Kept OneForEach UpdatedOnce NothingMoves AllMoves MainFirst LaterFirst RoundTrip
CHECK_DEADLOCK FALSE
