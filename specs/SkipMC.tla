------------------------------- MODULE SkipMC -------------------------------
(* Correctness of skipped-release decisions: the incremental bookkeeping (confirm only what no later peak *)
(* has confirmed, remember the peak confirmed in this epoch) counts every batch of decisions exactly once, *)
(* when the first sufficient demand peak in a later epoch within the interval arrives.                     *)
EXTENDS TimeSeries, FiniteSets
CONSTANTS K, CI, MaxEpoch, Peaks, MaxN, ResetOnSkip
VARIABLES now, slots, lastPeak, total, correct, pending, batches, n
vars == <<now, slots, lastPeak, total, correct, pending, batches, n>>
\* data of a slot: <<sum of skipped pages, max demand of the decisions, max confirmed peak>> folded from the reports
SumD(d) == LET f[i \in 0 .. Len(d)] == IF i = 0 THEN 0 ELSE f[i - 1] + d[i].pages IN f[Len(d)]
MaxD(d) == LET f[i \in 0 .. Len(d)] == IF i = 0 THEN 0 ELSE MaxOf(f[i - 1], d[i].at) IN f[Len(d)]
MaxC(d) == LET f[i \in 0 .. Len(d)] == IF i = 0 THEN 0 ELSE MaxOf(f[i - 1], d[i].peak) IN f[Len(d)]
Init == now = 0 /\ slots = Fresh(0) /\ lastPeak = 0 /\ total = 0 /\ correct = 0 /\ pending = 0 /\ batches = {} /\ n = 0
Move == /\ now < MaxEpoch /\ \E d \in 1 .. 2 : now' = now + d
        /\ UNCHANGED <<slots, lastPeak, total, correct, pending, batches, n>>
Skip == \E p \in Peaks :
  /\ n < MaxN /\ n' = n + 1
  /\ slots' = Put(Tick(slots, now, K), [pages |-> 1, at |-> p, peak |-> 0])
  /\ lastPeak' = (IF ResetOnSkip /\ Moved(slots, now) THEN 0 ELSE lastPeak)
  /\ total' = total + 1 /\ pending' = pending + 1
  \* the ideal: one batch per epoch
  /\ batches' = IF \E b \in batches : b.ep = now
                THEN {IF b.ep = now THEN [b EXCEPT !.pages = @ + 1, !.at = MaxOf(@, p)] ELSE b : b \in batches}
                ELSE batches \cup {[ep |-> now, pages |-> 1, at |-> p, done |-> FALSE]}
  /\ UNCHANGED <<now, correct>>
RECURSIVE Scan(_, _, _, _)
Scan(w, i, conf, peak) ==       \* returns <<newly correct, pending>>
  IF i > Len(w) THEN <<0, 0>>
  ELSE LET d == w[i].data  s == SumD(d)  m == MaxD(d)
           r == Scan(w, i + 1, MaxOf(conf, MaxC(d)), peak) IN
       IF s > 0 /\ m > conf THEN (IF m <= peak THEN <<r[1] + s, r[2]>> ELSE <<r[1], r[2] + s>>) ELSE r
Update == \E p \in Peaks :
  /\ n < MaxN /\ n' = n + 1
  /\ LET s1 == Put(Tick(slots, now, K), [pages |-> 0, at |-> 0, peak |-> p])
         lp == IF Moved(slots, now) THEN 0 ELSE lastPeak
         r == Scan(InWindow(s1, CI + 1), 2, lp, p) IN
     /\ slots' = s1 /\ lastPeak' = MaxOf(lp, p)
     /\ correct' = correct + r[1] /\ pending' = r[2]
  /\ batches' = {IF b.ep < now /\ now - b.ep <= CI /\ b.at <= p THEN [b EXCEPT !.done = TRUE] ELSE b : b \in batches}
  /\ UNCHANGED <<now, total>>
Next == Move \/ Skip \/ Update
Spec == Init /\ [][Next]_vars
RECURSIVE SumB(_)
SumB(S) == IF S = {} THEN 0 ELSE LET b == CHOOSE b \in S : TRUE IN b.pages + SumB(S \ {b})
CorrectExact == correct = SumB({b \in batches : b.done})
Consistent == correct + pending <= total
=============================================================================
