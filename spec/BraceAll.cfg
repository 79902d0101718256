SPECIFICATION Spec
CONSTANTS Params <- MCStrings
 MaxTokens = 3
 MaxDepth = 1
 MaxRoots = 1
INVARIANTS NoError PrefixRead RoundTrip Emit
CHECK_DEADLOCK FALSE
