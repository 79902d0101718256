SPECIFICATION Spec
CONSTANT Files <- F3
CONSTANT Indexes <- I3
CONSTANT Contents = {"p", "q"}
CONSTANT Versions <- VPlain
CONSTANT MaxOps = 3
INVARIANT RoundTrip
CHECK_DEADLOCK FALSE
VIEW View
