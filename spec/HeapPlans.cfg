SPECIFICATION HSpec
CONSTANTS
 MaxVars = 2
 Emit = TRUE
 Values = 1
 Depth = 40
VIEW View
CHECK_DEADLOCK FALSE
