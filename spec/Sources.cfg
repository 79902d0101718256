SPECIFICATION Spec
CONSTANT Files <- F3
CONSTANT Indexes <- I3
CONSTANT Contents = {"p", "q"}
CONSTANT Versions <- V3
CONSTANT MaxOps = 3
INVARIANT RoundTrip
PROPERTY OldStable
PROPERTY Minimal
CHECK_DEADLOCK FALSE
VIEW View
