SPECIFICATION ASpec
CONSTANTS
  Depth = 12
  Emit = TRUE
VIEW View
CHECK_DEADLOCK FALSE
