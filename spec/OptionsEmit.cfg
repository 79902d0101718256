INIT Init
NEXT NextSim
CONSTANTS
  Products <- ProdsFew
  Prefixes <- Pre
  Versions <- Vers
  Goods <- Gs
  Releases <- Rel
  Outs <- Out
  Sep <- SepS
  Mark <- MarkS
  Colon <- ColonS
  MaxSteps = 7
INVARIANT Emit
CHECK_DEADLOCK FALSE
