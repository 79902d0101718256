SPECIFICATION Spec
CONSTANTS Names = {"a", "b", "c"}
 Contents = {"e", "s", "m", "l", "z"}
 MaxDepth = 4
 MaxNodes = 7
INVARIANTS OneStream NothingInvented Complete Emit
CHECK_DEADLOCK FALSE
