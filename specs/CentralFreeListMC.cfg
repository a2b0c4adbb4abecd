CONSTANTS Spans = {1, 2, 3}  K = 2  N = 3  Threads = {1, 2}
SPECIFICATION Spec
INVARIANT OneOwner
INVARIANT Findable
INVARIANT GoneWhenUnused
INVARIANT Hist
INVARIANT Counter
INVARIANT Totals
CONSTRAINT Cap
CHECK_DEADLOCK FALSE
