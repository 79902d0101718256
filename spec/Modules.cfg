SPECIFICATION Spec
CONSTANTS
  Places <- P4
  Encodings <- E5
  Texts <- Txt3
  MaxEdits = 1
INVARIANTS RoundTrip EncodingKept Readable Valid BuiltIsSource
CHECK_DEADLOCK FALSE
