SPECIFICATION Spec
CONSTANTS Params <- MCWide
 MaxTokens = 6
 MaxDepth = 3
 MaxRoots = 2
INVARIANTS NoError PrefixRead RoundTrip Emit
CHECK_DEADLOCK FALSE
