SPECIFICATION Spec
CONSTANTS K = 4 CI = 2 MaxEpoch = 5 Peaks = {1, 2} MaxN = 5 ResetOnSkip = TRUE
INVARIANTS CorrectExact Consistent
CHECK_DEADLOCK FALSE
