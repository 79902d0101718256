SPECIFICATION Spec
CONSTANT Files <- F5
CONSTANT Indexes <- I5
CONSTANT Contents = {"p", "q", "r"}
CONSTANT Versions <- V4
CONSTANT MaxOps = 3
INVARIANT Emit
CHECK_DEADLOCK FALSE
CONSTANT Products <- SomeProducts
