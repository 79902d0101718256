SPECIFICATION Spec
CONSTANT Mode = "managed"
CONSTANT MaxNodes = 6
CONSTANT AreaNames = {"A", "B"}
CONSTANT PageLists <- PL
INVARIANT RoundTrip
INVARIANT Conserved
INVARIANT Portable
CHECK_DEADLOCK FALSE
