SPECIFICATION Spec
CONSTANTS
  Kinds <- K4
  Data <- D3
  Shells <- S2
  MaxEdits = 3
INVARIANTS RoundTrip WellFormed FileWins ShellKept NothingInvented
CHECK_DEADLOCK FALSE
