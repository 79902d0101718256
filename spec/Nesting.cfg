SPECIFICATION Spec
CONSTANTS Names = {"a", "b"}
 Contents = {"x", "y"}
 MaxDepth = 3
 MaxNodes = 3
INVARIANTS OneStream NothingInvented Complete
CHECK_DEADLOCK FALSE
