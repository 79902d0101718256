SPECIFICATION SpecX
CONSTANTS
  PropNames = {1, 2}
  Ids = {1, 2}
  Odd = 99
  MaxProps = 1
  MaxEls = 4
  MaxEdits = 1
INVARIANTS Inv
VIEW View
CHECK_DEADLOCK FALSE
