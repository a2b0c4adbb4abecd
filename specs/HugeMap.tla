------------------------------ MODULE HugeMap -------------------------------
(***************************************************************************)
(* The store of free huge-page ranges (HugeAddressMap) and the allocator   *)
(* of unbacked huge pages built on it (HugeAllocator).                     *)
(*   free   huge pages in the store                                        *)
(*   used   huge pages handed out by the allocator                         *)
(*   sys    huge pages obtained from the system                            *)
(* Mode "map" drives the store alone; "alloc" drives the allocator.        *)
(***************************************************************************)
EXTENDS Runs

CONSTANTS N,        \* huge pages 0..N-1
          MaxReq    \* largest request in the bounded model

VARIABLES free, used, sys
vars == <<free, used, sys>>

Pages == 0 .. N - 1
Init == free = {} /\ used = {} /\ sys = {}

-----------------------------------------------------------------------------
(* store alone *)
MapInsert(a, n) ==
  /\ n > 0 /\ Ival(a, n) \cap free = {}
  /\ free' = free \cup Ival(a, n)
  /\ UNCHANGED <<used, sys>>
MapRemove(a, n) ==                     \* removal of one listed range
  /\ <<a, n>> \in Runs(free)
  /\ free' = free \ Ival(a, n)
  /\ UNCHANGED <<used, sys>>

(* allocator *)
GetFromFree(n, a) ==                   \* some free run is long enough: no system request
  /\ HasRun(free, n)
  /\ Ival(a, n) \subseteq free
  /\ free' = free \ Ival(a, n)
  /\ used' = used \cup Ival(a, n)
  /\ UNCHANGED sys
GetFromSystem(n, s, m, a) ==           \* the system gave m >= n huge pages at s
  /\ ~HasRun(free, n)
  /\ m >= n /\ Ival(s, m) \cap sys = {}
  /\ LET f == free \cup Ival(s, m) IN
       /\ Ival(a, n) \subseteq f
       /\ free' = f \ Ival(a, n)
       /\ used' = used \cup Ival(a, n)
  /\ sys' = sys \cup Ival(s, m)
GetFails(n) == ~HasRun(free, n) /\ UNCHANGED vars
Release(a, n) ==
  /\ n > 0 /\ Ival(a, n) \subseteq used
  /\ used' = used \ Ival(a, n)
  /\ free' = free \cup Ival(a, n)
  /\ UNCHANGED sys

MapNext ==
  \/ \E a \in Pages, n \in 1 .. N : a + n <= N /\ MapInsert(a, n)
  \/ \E r \in Runs(free) : MapRemove(r[1], r[2])
AllocNext ==
  \/ \E n \in 1 .. MaxReq, a \in Pages : a + n <= N /\ GetFromFree(n, a)
  \/ \E n \in 1 .. MaxReq, s \in Pages, m \in 1 .. MaxReq + 1, a \in Pages :
        a + n <= N /\ s + m <= N /\ GetFromSystem(n, s, m, a)
  \/ \E n \in 1 .. MaxReq : GetFails(n)
  \/ \E a \in Pages, n \in 1 .. N : a + n <= N /\ Release(a, n)

MapSpec == Init /\ [][MapNext]_vars
AllocSpec == Init /\ [][AllocNext]_vars

-----------------------------------------------------------------------------
(* Properties *)
Conserved == sys = {} \/ (free \cup used = sys /\ free \cap used = {})
RunsSound ==                            \* maximal, disjoint, complete
  /\ UNION { Ival(r[1], r[2]) : r \in Runs(free) } = free
  /\ \A r, q \in Runs(free) : r # q => (r[1] + r[2] < q[1] \/ q[1] + q[2] < r[1])
NeverTwice == [][ \A p \in Pages : (p \in used /\ p \in used') \/ p \notin used
                      \/ p \in free' ]_vars
=============================================================================
