INIT WInit
NEXT SimNext
CONSTANTS
  PropNames = {"a", "b", "c"}
  ColNames = {"d", "e", "f"}
  CmdNames = {"k", "l", "m"}
  Ids = {1, 2, 3, 4}
  Odd = 99
  MaxProps = 3
  MaxCmds = 3
  MaxEls = 8
  MaxEdits = 3
  Types = {"simple", "host1", "host2", "other"}
  Links3 = TRUE
INVARIANTS Emit RoundTrip NeverFailsUnchanged AreaNamed OutsideKept OwnType Loud Trees
CHECK_DEADLOCK FALSE
