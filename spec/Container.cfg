SPECIFICATION Spec
CONSTANTS NEntries = 2
 Sizes = {0, 3}
 Gaps = {1}
 Splits = {"slack", "two"}
 HDR = 1
 BH = 1
INVARIANTS Shape Linked ReadBack SizeIsEnd
CHECK_DEADLOCK FALSE
