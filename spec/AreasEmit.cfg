SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c", "d"}
 Codes = {"x", "y", "z"}
 Dirs = {"", "", "K", "S"}
 MaxLines = 14
INVARIANTS Conserved Closed RoundTrip Emit
CHECK_DEADLOCK FALSE
