SPECIFICATION Spec
CONSTANTS
  Keys = {k1, k2, k3}
  Junk = junk
INVARIANTS AlwaysACopy CopyFailureKeepsOwn DoneIsClean
CHECK_DEADLOCK FALSE
