INIT WInit
NEXT SimNext
CONSTANTS
  PropNames = {1, 2, 3}
  Ids = {1, 2, 3, 4}
  Odd = 99
  MaxProps = 3
  MaxEls = 9
  MaxEdits = 3
INVARIANTS Emit Inv
CHECK_DEADLOCK FALSE
