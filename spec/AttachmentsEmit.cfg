INIT Init
NEXT NextSim
CONSTANTS
  Kinds <- K4
  Data <- Dat
  Shells <- S2
  MaxEdits = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
