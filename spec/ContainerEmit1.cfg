SPECIFICATION Spec
CONSTANTS NEntries = 1
 Sizes = {0, 1, 3}
 Gaps = {0, 1}
 Splits = {"exact", "slack", "two", "three", "twoslack"}
 HDR = 1
 BH = 1
INVARIANTS Shape Linked ReadBack SizeIsEnd Emit
CHECK_DEADLOCK FALSE
