SPECIFICATION Spec
CONSTANTS MaxEntries = 7
 DataSizes = {0, 1, 3}
 HDR = 2
 BH = 2
 IDX = 4
 ENT = 2
 DFLT = 2
 ATTR = 1
 Bases = {0, 5}
INVARIANTS Disjoint InFile ReadBack SizeIsEnd
PROPERTY Finishes
CHECK_DEADLOCK FALSE
