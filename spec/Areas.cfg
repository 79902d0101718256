SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Codes = {"x"}
 Dirs = {"", "K"}
 MaxLines = 7
INVARIANTS Conserved Closed RoundTrip
CHECK_DEADLOCK FALSE
