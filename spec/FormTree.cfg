SPECIFICATION Spec1
CONSTANTS
  PropNames = {"a", "b"}
  ColNames = {"c"}
  CmdNames = {"k"}
  Ids = {1, 2}
  Odd = 99
  MaxProps = 1
  MaxCmds = 1
  MaxEls = 2
  MaxEdits = 1
  Types = {"simple", "host1", "host2"}
  Links3 = FALSE
INVARIANTS RoundTrip NeverFailsUnchanged AreaNamed OutsideKept OwnType Loud Trees
VIEW View
CHECK_DEADLOCK FALSE
