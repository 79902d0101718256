SPECIFICATION Spec
CONSTANT Mode = "managed"
CONSTANT MaxNodes = 6
CONSTANT AreaNames = {"A", "B"}
CONSTANT PageLists <- PL
CHECK_DEADLOCK FALSE
INVARIANT Emit
