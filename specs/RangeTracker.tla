---------------------------- MODULE RangeTracker ----------------------------
(* Fixed-size bitmap and the range tracker built on it.                      *)
(*   N     size of the tracker (a variable: recorded histories mix sizes)    *)
(*   B     set bits                                                          *)
(*   live  number of allocations outstanding                                 *)
EXTENDS Runs
CONSTANT MaxN
VARIABLES N, B, live
vars == <<N, B, live>>

Clear(S, n) == (0 .. n - 1) \ S
LongestFree == Longest(Clear(B, N))

Init == N \in 1 .. MaxN /\ B = {} /\ live = 0

(* best fit: a smallest sufficient free run *)
FindAndMark(n, i) ==
  /\ n > 0
  /\ \E r \in Runs(Clear(B, N)) :
        /\ r[2] >= n
        /\ \A q \in Runs(Clear(B, N)) : q[2] >= n => r[2] <= q[2]
        /\ i >= r[1] /\ i + n <= r[1] + r[2]
  /\ B' = B \cup Ival(i, n) /\ live' = live + 1 /\ UNCHANGED N
Mark(i, n) ==
  /\ n > 0 /\ i + n <= N /\ Ival(i, n) \cap B = {}
  /\ B' = B \cup Ival(i, n) /\ live' = live + 1 /\ UNCHANGED N
Unmark(i, n) ==
  /\ n > 0 /\ Ival(i, n) \subseteq B /\ live > 0
  /\ B' = B \ Ival(i, n) /\ live' = live - 1 /\ UNCHANGED N
ClearAll == B' = {} /\ live' = 0 /\ UNCHANGED N

(* queries as functions of the abstract set *)
FindSet(S, n, i) == LET c == { x \in S : x >= i } IN IF c = {} THEN n ELSE MinOf(c)
FindClear(S, n, i) == FindSet(Clear(S, n), n, i)
FindSetBack(S, i) == LET c == { x \in S : x <= i } IN IF c = {} THEN -1 ELSE MaxOf(c)
FindClearBack(S, n, i) == FindSetBack(Clear(S, n), i)
Count(S, i, n) == Cardinality(S \cap Ival(i, n))
NextFree(S, n, i) ==                     \* <<index, length>> or <<-1, 0>>
  LET j == IF i >= n THEN n ELSE FindClear(S, n, i) IN
  IF j >= n THEN <<-1, 0>> ELSE <<j, FindSet(S, n, j) - j>>

Next ==
  \/ \E n \in 1 .. N, i \in 0 .. N - 1 : FindAndMark(n, i)
  \/ \E n \in 1 .. N, i \in 0 .. N - 1 : Mark(i, n)
  \/ \E n \in 1 .. N, i \in 0 .. N - 1 : i + n <= N /\ (B \cap Ival(i, n) = Ival(i, n)) /\ live > 0 /\ Unmark(i, n)
  \/ ClearAll
Spec == Init /\ [][Next]_vars
LiveBound == live <= MaxN

InRange == B \subseteq 0 .. N - 1
FullyFree == (B = {}) = (LongestFree = N)
FitWhenever == \A n \in 1 .. N : HasRun(Clear(B, N), n) = (n <= LongestFree)
QueriesAgree ==
  \A i \in 0 .. N - 1 :
     /\ (FindSet(B, N, i) = i) = (i \in B)
     /\ (FindClear(B, N, i) = i) = (i \notin B)
     /\ FindSet(B, N, i) >= i /\ FindSetBack(B, i) <= i
     \* the queries satisfy (and are determined by) these recurrences, used by the trace spec
     /\ FindSet(B, N, i) = (IF i \in B THEN i ELSE IF i = N - 1 THEN N ELSE FindSet(B, N, i + 1))
     /\ FindClear(B, N, i) = (IF i \notin B THEN i ELSE IF i = N - 1 THEN N ELSE FindClear(B, N, i + 1))
     /\ FindSetBack(B, i) = (IF i \in B THEN i ELSE IF i = 0 THEN -1 ELSE FindSetBack(B, i - 1))
     /\ FindClearBack(B, N, i) = (IF i \notin B THEN i ELSE IF i = 0 THEN -1 ELSE FindClearBack(B, N, i - 1))
     /\ NextFree(B, N, i) = (LET j == FindClear(B, N, i) IN IF j = N THEN <<-1, 0>> ELSE <<j, FindSet(B, N, j) - j>>)
     /\ Count(B, 0, N) = Count(B, 0, i) + Count(B, i, N - i)
=============================================================================
