CONSTANTS Spans = {1, 2}  K = 3  N = 2  Threads = {1, 2}
SPECIFICATION Spec
INVARIANT OneOwner
INVARIANT Findable
INVARIANT GoneWhenUnused
INVARIANT Hist
INVARIANT Counter
INVARIANT Totals
CONSTRAINT Cap
CHECK_DEADLOCK FALSE
