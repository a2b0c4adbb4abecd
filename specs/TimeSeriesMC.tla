---------------------------- MODULE TimeSeriesMC ----------------------------
(* The ring of K slots with an incremental count of covered epochs keeps exactly the slots of TimeSeries, *)
(* and walking it backwards visits exactly the slots of the asked window.                                  *)
EXTENDS TimeSeries
CONSTANTS K, MaxEpoch, MaxN
VARIABLES now, slots, ring, cur, last, covered, n
vars == <<now, slots, ring, cur, last, covered, n>>
Nil == [delta |-> 0, data |-> <<>>]
Init == /\ now = 1 /\ slots = Fresh(1) /\ cur = 0 /\ last = 1 /\ covered = 1 /\ n = 0
        /\ ring = [i \in 0 .. K - 1 |-> IF i = 0 THEN [Nil EXCEPT !.delta = 1] ELSE Nil]
\* UpdateClock of the ring at epoch ep
Clock(ep) ==
  IF ep < last THEN [ring |-> [i \in 0 .. K - 1 |-> IF i = 0 THEN [Nil EXCEPT !.delta = 1] ELSE Nil], cur |-> 0, last |-> ep, covered |-> 1]
  ELSE IF ep = last THEN [ring |-> ring, cur |-> cur, last |-> last, covered |-> covered]
  ELSE LET c == (cur + 1) % K  d == ep - last IN
       [ring |-> [ring EXCEPT ![c] = [delta |-> d, data |-> <<>>]], cur |-> c, last |-> ep, covered |-> covered - ring[c].delta + d]
Move == \E t \in 1 .. MaxEpoch : t # now /\ now' = t /\ UNCHANGED <<slots, ring, cur, last, covered, n>>
Report == /\ n < MaxN /\ n' = n + 1
          /\ slots' = Put(Tick(slots, now, K), n)
          /\ LET r == Clock(now) IN /\ ring' = [r.ring EXCEPT ![r.cur].data = Append(@, n)]
                                    /\ cur' = r.cur /\ last' = r.last /\ covered' = r.covered
          /\ UNCHANGED now
UpdateBase == /\ slots' = Tick(slots, now, K)
              /\ LET r == Clock(now) IN ring' = r.ring /\ cur' = r.cur /\ last' = r.last /\ covered' = r.covered
              /\ UNCHANGED <<now, n>>
Next == Move \/ Report \/ UpdateBase
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_), Walk(_, _, _, _, _)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1].delta + Sum(Tail(s))
Walk(j, k, max, done, need) ==
  IF k = max THEN <<>>
  ELSE <<[delta |-> ring[j].delta, data |-> ring[j].data]>> \o
       (IF done + ring[j].delta >= need THEN <<>> ELSE Walk((j + K - 1) % K, k + 1, max, done + ring[j].delta, need))
Backwards(need) == IF need = 0 THEN <<>>
                   ELSE LET t == IF need = -1 THEN covered ELSE MinOf(need, covered) IN Walk(cur, 0, MinOf(K, t), 0, t)
Strip(s) == [i \in 1 .. Len(s) |-> [delta |-> s[i].delta, data |-> s[i].data]]
Covered == covered = Sum(slots) /\ covered > 0 /\ last = slots[1].ep
SameWindow == \A need \in -1 .. MaxEpoch + 2 : Backwards(need) = Strip(InWindow(slots, need))
Bounded == Len(slots) <= K /\ \A i \in 1 .. Len(slots) - 1 : slots[i].ep = slots[i + 1].ep + slots[i].delta
=============================================================================
