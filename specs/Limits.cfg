CONSTANTS Max = 6
 None = 99
 Unit = 2
 Claims = FALSE
SPECIFICATION Spec
CONSTRAINT Bound
INVARIANTS Type HardHeld SoftHeld StopJustified Honest Carry
CHECK_DEADLOCK FALSE
