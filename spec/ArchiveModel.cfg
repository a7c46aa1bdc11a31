SPECIFICATION ASpec
CONSTANTS
  Depth = 12
  Emit = FALSE
VIEW View
INVARIANTS NoClash KeysAreGroups
PROPERTY Frame
CHECK_DEADLOCK FALSE
