------------------------------- MODULE ProfilesMC -------------------------------
EXTENDS Profiles, TLC
CONSTANTS Objs, Ests, Fracs, Sessions
VARIABLES s, est, taken, frac, ever
vars == <<s, est, taken, frac, ever>>
Init == /\ s = [size |-> 0, live |-> {}, peak |-> 0, snap |-> {}, open |-> [x \in {} |-> {}]]
        /\ est \in [Objs -> Ests] /\ taken = {} /\ frac \in Fracs /\ ever = [n \in Sessions |-> {}]
New(x) == x \notin taken /\ taken' = taken \cup {x} /\ s' = Born(s, x, est[x], frac) /\ UNCHANGED <<est, frac>>
          /\ ever' = [n \in Sessions |-> IF n \in DOMAIN s.open THEN ever[n] \cup {x} ELSE ever[n]]
Free(x) == x \in s.live /\ s' = Gone(s, x, est[x]) /\ UNCHANGED <<est, taken, frac, ever>>
Open(n) == n \notin DOMAIN s.open /\ s' = Opens(s, n) /\ ever' = [ever EXCEPT ![n] = {}] /\ UNCHANGED <<est, taken, frac>>
Close(n) == n \in DOMAIN s.open /\ s' = Closes(s, n) /\ UNCHANGED <<est, taken, frac, ever>>
Frac == \E f \in Fracs : frac' = f /\ UNCHANGED <<s, est, taken, ever>>
Next == Frac \/ (\E x \in Objs : New(x) \/ Free(x)) \/ \E n \in Sessions : Open(n) \/ Close(n)
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(q) == IF q = {} THEN 0 ELSE LET x == CHOOSE y \in q : TRUE IN est[x] + Sum(q \ {x})
Exact == s.size = Sum(s.live) /\ s.live \subseteq taken
Snapshot == s.peak = Sum(s.snap) /\ s.snap \subseteq taken
Session == \A n \in DOMAIN s.open : s.open[n] = ever[n]
\* while a fraction of at most one is in force, nothing larger than the snapshot has been missed
Missed == [][(frac \in 1..4 /\ s'.size > s.size) => 4 * s'.size <= s'.peak * 4]_vars
OnlyGrows == [][frac >= 4 => s'.peak >= s.peak]_vars
Stays == [][s'.peak = s.peak => s'.snap = s.snap]_vars
=============================================================================
