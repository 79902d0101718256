SPECIFICATION Spec
CONSTANTS Params <- MCParams
 MaxTokens = 6
 MaxDepth = 3
 MaxRoots = 2
INVARIANTS NoError PrefixRead RoundTrip
CHECK_DEADLOCK FALSE
