INIT InitSim
NEXT NextSim
CONSTANTS
  Places <- P4
  Encodings <- E5
  Texts <- Txt3
  MaxEdits = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
