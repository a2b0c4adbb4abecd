SPECIFICATION Spec
CONSTANTS
  Unit = 700000
  Most = 4
INVARIANT Adds
CHECK_DEADLOCK FALSE
