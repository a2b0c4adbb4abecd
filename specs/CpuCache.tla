------------------------------ MODULE CpuCache ------------------------------
(***************************************************************************)
(* The capacity of the per-CPU caches.  Each CPU owns an amount of bytes,  *)
(* capac[c]; part of it is given to size classes (cap[c][k] objects of     *)
(* Size[k] bytes) and the rest is avail[c].  Threads running on a CPU grow *)
(* its classes in two steps: they take bytes out of avail, then ask the    *)
(* slab, which may refuse some or all of it, and give the rest back.  One  *)
(* background thread moves capacity between the classes of a CPU, between  *)
(* CPUs, drains CPUs, changes the classes' limits and resizes the slabs;   *)
(* each of these also takes several steps.                                 *)
(* Objects are counted: user[k] + back[k] + what the CPUs hold is fixed.   *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Cpus, Threads, Limit, NObj, MaxCaps
Classes == {1, 2}
Size == (1 :> 1) @@ (2 :> 3)
VARIABLES avail, capac, cap, len, pop, user, back, maxcap, m, bg
vars == <<avail, capac, cap, len, pop, user, back, maxcap, m, bg>>

Idle == [cpu |-> 0, cls |-> 0, bytes |-> 0]
NoBg == [op |-> "none", cpu |-> 0, held |-> 0, dest |-> 0]

Init == /\ avail = [c \in Cpus |-> Limit]
        /\ capac = [c \in Cpus |-> Limit]
        /\ cap = [c \in Cpus |-> [k \in Classes |-> 0]]
        /\ len = [c \in Cpus |-> [k \in Classes |-> 0]]
        /\ pop = [c \in Cpus |-> FALSE]
        /\ user = [k \in Classes |-> 0]
        /\ back = [k \in Classes |-> NObj]
        /\ maxcap = [k \in Classes |-> MaxCaps]
        /\ m = [t \in Threads |-> Idle]
        /\ bg = NoBg

(***************************************************************************)
(* Threads                                                                 *)
(***************************************************************************)
Populate(t, c) ==
  /\ ~pop[c]
  /\ pop' = [pop EXCEPT ![c] = TRUE]
  /\ UNCHANGED <<avail, capac, cap, len, user, back, maxcap, m, bg>>

\* A hit.
Pop(c, k) ==
  /\ pop[c] /\ len[c][k] > 0
  /\ len' = [len EXCEPT ![c][k] = @ - 1]
  /\ user' = [user EXCEPT ![k] = @ + 1]
  /\ UNCHANGED <<avail, capac, cap, pop, back, maxcap, m, bg>>
Push(c, k) ==
  /\ pop[c] /\ user[k] > 0 /\ len[c][k] < cap[c][k]
  /\ len' = [len EXCEPT ![c][k] = @ + 1]
  /\ user' = [user EXCEPT ![k] = @ - 1]
  /\ UNCHANGED <<avail, capac, cap, pop, back, maxcap, m, bg>>

\* A miss takes bytes for at least one more object ...
Take(t, c, k, n) ==
  /\ m[t] = Idle /\ pop[c] /\ avail[c] >= Size[k] /\ n \in 1..2
  /\ LET got == IF avail[c] < n * Size[k] THEN avail[c] ELSE n * Size[k] IN
     /\ m' = [m EXCEPT ![t] = [cpu |-> c, cls |-> k, bytes |-> got]]
     /\ avail' = [avail EXCEPT ![c] = @ - got]
  /\ UNCHANGED <<capac, cap, len, pop, user, back, maxcap, bg>>
\* ... and asks the slab, which grants i objects (none if the thread has moved to another CPU) and returns the rest.
Grant(t, i) ==
  /\ m[t] # Idle
  /\ LET c == m[t].cpu  k == m[t].cls IN
     /\ i * Size[k] <= m[t].bytes
     /\ IF i = 0 THEN TRUE ELSE pop[c] /\ cap[c][k] + i <= maxcap[k]
     /\ cap' = [cap EXCEPT ![c][k] = @ + i]
     /\ avail' = [avail EXCEPT ![c] = @ + m[t].bytes - i * Size[k]]
  /\ m' = [m EXCEPT ![t] = Idle]
  /\ UNCHANGED <<capac, len, pop, user, back, maxcap, bg>>
\* A batch is fetched for a CPU or returned from it.
Fetch(c, k) ==
  /\ pop[c] /\ back[k] > 0
  /\ back' = [back EXCEPT ![k] = @ - 1]
  /\ \/ len[c][k] < cap[c][k] /\ len' = [len EXCEPT ![c][k] = @ + 1] /\ UNCHANGED user
     \/ user' = [user EXCEPT ![k] = @ + 1] /\ UNCHANGED len
  /\ UNCHANGED <<avail, capac, cap, pop, maxcap, m, bg>>
Return(c, k) ==
  /\ back' = [back EXCEPT ![k] = @ + 1]
  /\ \/ pop[c] /\ len[c][k] > 0 /\ len' = [len EXCEPT ![c][k] = @ - 1] /\ UNCHANGED user
     \/ user[k] > 0 /\ user' = [user EXCEPT ![k] = @ - 1] /\ UNCHANGED len
  /\ UNCHANGED <<avail, capac, cap, pop, maxcap, m, bg>>

(***************************************************************************)
(* The background thread                                                   *)
(***************************************************************************)
\* One object of capacity of class k is taken from CPU c, which is stopped; an object in it goes back.
Shrink(c, k) ==
  /\ pop[c] /\ cap[c][k] > 0
  /\ cap' = [cap EXCEPT ![c][k] = @ - 1]
  /\ IF len[c][k] = cap[c][k]
     THEN len' = [len EXCEPT ![c][k] = @ - 1] /\ back' = [back EXCEPT ![k] = @ + 1]
     ELSE UNCHANGED <<len, back>>

ResizeBegin(c) ==
  /\ bg = NoBg /\ pop[c]
  /\ bg' = [NoBg EXCEPT !.op = "resize", !.cpu = c, !.held = avail[c]]
  /\ avail' = [avail EXCEPT ![c] = 0]
  /\ UNCHANGED <<capac, cap, len, pop, user, back, maxcap, m>>
ResizeShrink(k) ==
  /\ bg.op = "resize"
  /\ Shrink(bg.cpu, k)
  /\ bg' = [bg EXCEPT !.held = @ + Size[k]]
  /\ UNCHANGED <<avail, capac, pop, user, maxcap, m>>
ResizeGrow(k) ==
  /\ bg.op = "resize" /\ bg.held >= Size[k] /\ cap[bg.cpu][k] < maxcap[k]
  /\ cap' = [cap EXCEPT ![bg.cpu][k] = @ + 1]
  /\ bg' = [bg EXCEPT !.held = @ - Size[k]]
  /\ UNCHANGED <<avail, capac, len, pop, user, back, maxcap, m>>
ResizeEnd ==
  /\ bg.op = "resize"
  /\ avail' = [avail EXCEPT ![bg.cpu] = @ + bg.held]
  /\ bg' = NoBg
  /\ UNCHANGED <<capac, cap, len, pop, user, back, maxcap, m>>

ShuffleBegin(c, d) ==
  /\ bg = NoBg /\ c # d /\ pop[c] /\ pop[d]
  /\ bg' = [NoBg EXCEPT !.op = "shuffle", !.cpu = c, !.dest = d]
  /\ UNCHANGED <<avail, capac, cap, len, pop, user, back, maxcap, m>>
\* available bytes are taken without stopping the CPU; the capacity is corrected afterwards
ShuffleTake ==
  /\ bg.op = "shuffle" /\ avail[bg.cpu] > 0
  /\ \E n \in {1, avail[bg.cpu]} :
       /\ avail' = [avail EXCEPT ![bg.cpu] = @ - n]
       /\ bg' = [bg EXCEPT !.op = "took", !.held = @ + n]
       /\ capac' = [capac EXCEPT ![bg.cpu] = @ - n]
  /\ UNCHANGED <<cap, len, pop, user, back, maxcap, m>>
ShuffleShrink(k) ==
  /\ bg.op \in {"shuffle", "took"}
  /\ Shrink(bg.cpu, k)
  /\ capac' = [capac EXCEPT ![bg.cpu] = @ - Size[k]]
  /\ bg' = [bg EXCEPT !.op = "took", !.held = @ + Size[k]]
  /\ UNCHANGED <<avail, pop, user, maxcap, m>>
ShuffleEnd ==
  /\ bg.op \in {"shuffle", "took"}
  /\ avail' = [avail EXCEPT ![bg.dest] = @ + bg.held]
  /\ capac' = [capac EXCEPT ![bg.dest] = @ + bg.held]
  /\ bg' = NoBg
  /\ UNCHANGED <<cap, len, pop, user, back, maxcap, m>>

CapBytes(c) == cap[c][1] * Size[1] + cap[c][2] * Size[2]
DrainCpus(D) ==
  /\ avail' = [c \in Cpus |-> IF c \in D THEN avail[c] + CapBytes(c) ELSE avail[c]]
  /\ cap' = [c \in Cpus |-> IF c \in D THEN [k \in Classes |-> 0] ELSE cap[c]]
  /\ len' = [c \in Cpus |-> IF c \in D THEN [k \in Classes |-> 0] ELSE len[c]]
  /\ back' = [k \in Classes |-> back[k] + MapThenSumSet(LAMBDA c : len[c][k], D)]
Drain(c) ==
  /\ bg = NoBg /\ pop[c]
  /\ DrainCpus({c})
  /\ UNCHANGED <<capac, pop, user, maxcap, m, bg>>
\* The slab of a CPU that is empty is given back; nobody uses it until it is populated again.
Unpopulate(c) ==
  /\ bg = NoBg /\ pop[c] /\ cap[c] = [k \in Classes |-> 0]
  /\ pop' = [pop EXCEPT ![c] = FALSE]
  /\ UNCHANGED <<avail, capac, cap, len, user, back, maxcap, m, bg>>
\* New slabs: everything is drained; the limits of the classes may move between them.
NewSlabs ==
  /\ bg = NoBg
  /\ DrainCpus({c \in Cpus : pop[c]})
  /\ \/ UNCHANGED maxcap
     \/ \E a, b \in Classes : /\ a # b /\ maxcap[a] > 1
                              /\ maxcap' = [maxcap EXCEPT ![a] = @ - 1, ![b] = @ + 1]
  /\ UNCHANGED <<capac, pop, user, m, bg>>

Next ==
  \/ \E c \in Cpus : \E t \in Threads : Populate(t, c)
  \/ \E c \in Cpus, k \in Classes : Pop(c, k) \/ Push(c, k) \/ Fetch(c, k) \/ Return(c, k)
  \/ \E t \in Threads, c \in Cpus, k \in Classes, n \in 1..2 : Take(t, c, k, n)
  \/ \E t \in Threads, i \in 0..2 : Grant(t, i)
  \/ \E c \in Cpus : ResizeBegin(c) \/ Drain(c) \/ Unpopulate(c)
  \/ \E k \in Classes : ResizeShrink(k) \/ ResizeGrow(k) \/ ShuffleShrink(k)
  \/ ResizeEnd \/ ShuffleTake \/ ShuffleEnd \/ NewSlabs
  \/ \E c, d \in Cpus : ShuffleBegin(c, d)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
InFlight(c) == MapThenSumSet(LAMBDA t : IF m[t].cpu = c THEN m[t].bytes ELSE 0, Threads)
             + (IF bg.op = "resize" /\ bg.cpu = c THEN bg.held ELSE 0)
\* The capacity of a CPU is what its classes have, what is free, and what is being moved within it.
CpuConserved == \A c \in Cpus : capac[c] = avail[c] + CapBytes(c) + InFlight(c)
\* Nothing is created or lost over all CPUs.
AllConserved == Cardinality(Cpus) * Limit =
                MapThenSumSet(LAMBDA c : capac[c], Cpus) + (IF bg.op \in {"shuffle", "took"} THEN bg.held ELSE 0)
Bounded == \A c \in Cpus : /\ avail[c] >= 0 /\ capac[c] >= 0
                           /\ \A k \in Classes : /\ 0 <= len[c][k] /\ len[c][k] <= cap[c][k] /\ cap[c][k] <= maxcap[k]
                           /\ pop[c] \/ cap[c] = [k \in Classes |-> 0]
ObjectsKept == \A k \in Classes : user[k] + back[k] + MapThenSumSet(LAMBDA c : len[c][k], Cpus) = NObj
LimitsKept == maxcap[1] + maxcap[2] = 2 * MaxCaps
Sym == Permutations(Threads)
=============================================================================
