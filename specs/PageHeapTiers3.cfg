SPECIFICATION Spec
CONSTANTS HP = 4 NHP = 2 Small = 2 RLen = 0 MaxN = 7 Fails = TRUE
INVARIANTS Disjoint InSystem BackedUse Consistent Totals TiersRight
CHECK_DEADLOCK FALSE
