---------------------------- MODULE HugeRegionMC ----------------------------
(* The incremental bookkeeping of a region agrees with the pages themselves. *)
EXTENDS HugeRegion, TLC
VARIABLES r, own, mem
\* own: page -> start of its allocation (-1: unused); mem: huge pages that have been touched since they were last released
vars == <<r, own, mem>>
Pg == 0 .. NH * PH - 1
Init == r = New /\ own = [p \in Pg |-> -1] /\ mem = {}
GetAct == \E a \in Pg, n \in 1 .. NH * PH : /\ CanGet(r, a, n)
                                         /\ r' = Get(r, a, n)
                                         /\ own' = [p \in Pg |-> IF a <= p /\ p < a + n THEN a ELSE own[p]]
                                         /\ mem' = mem \cup {p \div PH : p \in a .. a + n - 1}
\* every subset of the emptied (or of the releasable) huge pages may turn out to be unbacked
PutAct == \E a \in Pg : /\ own[a] = a
                     /\ LET n == Cardinality({p \in Pg : own[p] = a})  r1 == Put(r, a, n) IN
                        \E S \in SUBSET Emptied(r, a, n) :
                          /\ r' = Unback(r1, S) /\ mem' = mem \ S
                          /\ own' = [p \in Pg |-> IF own[p] = a THEN -1 ELSE own[p]]
ReleaseAct == \E S \in SUBSET Releasable(r) : S # {} /\ r' = Unback(r, S) /\ mem' = mem \ S /\ UNCHANGED own
Next == GetAct \/ PutAct \/ ReleaseAct
Spec == Init /\ [][Next]_vars
UsedIn(h) == Cardinality({p \in Pg : p \div PH = h /\ own[p] # -1})
RECURSIVE RunsOf(_, _)
RunsOf(p, from) == IF p = NH * PH THEN (IF from = -1 THEN {} ELSE {<<from, p - from>>})
                   ELSE IF own[p] = -1 THEN RunsOf(p + 1, IF from = -1 THEN p ELSE from)
                   ELSE (IF from = -1 THEN {} ELSE {<<from, p - from>>}) \cup RunsOf(p + 1, -1)
Agree == /\ \A h \in HP : r.used[h] = UsedIn(h)
         /\ r.free = RunsOf(0, -1)
         /\ r.backed = mem
         /\ r.fb = Cardinality({h \in mem : UsedIn(h) = 0})
UsedIsBacked == \A p \in Pg : own[p] # -1 => (p \div PH) \in r.backed
Totals == LET s == Spans(r, r.free) IN
          /\ Free(r) >= 0
          /\ Free(r) = SumF([i \in DOMAIN s |-> IF s[i][2] THEN 0 ELSE s[i][1]], DOMAIN s)
          /\ Unmapped(r) = SumF([i \in DOMAIN s |-> IF s[i][2] THEN s[i][1] ELSE 0], DOMAIN s)
=============================================================================
