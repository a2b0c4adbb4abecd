SPECIFICATION Spec
CONSTANTS HP = 2 NHP = 4 Small = 1 RLen = 2 MaxN = 5 Fails = TRUE
INVARIANTS Disjoint InSystem BackedUse Consistent Totals TiersRight
CHECK_DEADLOCK FALSE
