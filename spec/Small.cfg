SPECIFICATION Walk
INVARIANTS Lawful Count
CHECK_DEADLOCK FALSE
