SPECIFICATION HSpec
CONSTANTS
 MaxVars = 3
 Emit = FALSE
 Values = 2
 Depth = 5
VIEW View
INVARIANTS AlwaysWellFormed OnlyViewsShare Accepted
CHECK_DEADLOCK FALSE
