SPECIFICATION Spec
CONSTANTS
  Products <- ProdsFew
  Prefixes <- Pre
  Versions <- Vers
  Goods <- Gs
  Releases <- Rel
  Outs <- Out
  Sep <- SepS
  Mark <- MarkS
  Colon <- ColonS
  MaxSteps = 4
INVARIANTS OthersNamed InSources SourcesBack OnceNamed CompatIsTold
PROPERTIES PrefixRoundTrip NoOptionNoChange
VIEW View
CHECK_DEADLOCK FALSE
