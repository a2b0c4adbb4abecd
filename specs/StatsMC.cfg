SPECIFICATION Spec
CONSTANTS
  Unit = 700000
  Most = 2
INVARIANT Adds
CHECK_DEADLOCK FALSE
