-------------------------------- MODULE Filter ------------------------------
(* Counting filter with per-trace counters split over K positions, and the  *)
(* decaying filter on top of it: a ring of the last D additions whose       *)
(* displaced entry is taken out by the addition that displaces it.  Every   *)
(* atomic access is one step; positions may collide.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Traces, Pos, HashSet, D, Procs, MaxOps, MaxVal
\* HashSet: the possible hash functions, each [Traces -> Seq(Pos)]
H == CHOOSE h \in HashSet : TRUE
NoT == 0
VARIABLES cnt, ring, pos, pc, net, started, nops
vars == <<cnt, ring, pos, pc, net, started, nops>>
\* net: value of finished operations per trace; started: lower bound (removals at once)
Init == /\ cnt = [p \in Pos |-> 0] /\ ring = [i \in 0 .. D - 1 |-> NoT] /\ pos = 0
        /\ pc = [p \in Procs |-> [k |-> "idle"]] /\ net = [s \in Traces |-> 0]
        /\ started = [s \in Traces |-> 0] /\ nops = 0
Bump(s, i, v) == [cnt EXCEPT ![H[s][i]] = @ + v]
\* begin an operation
BeginAdd(p, s, v) ==
  /\ pc[p].k = "idle" /\ nops < MaxOps
  /\ pc' = [pc EXCEPT ![p] = [k |-> "bump", s |-> s, v |-> v + 1, i |-> 1, d |-> v]] /\ nops' = nops + 1
  /\ UNCHANGED <<cnt, ring, pos, net, started>>
BeginRemove(p, s) ==
  /\ pc[p].k = "idle" /\ nops < MaxOps /\ started[s] > 0
  /\ pc' = [pc EXCEPT ![p] = [k |-> "bump", s |-> s, v |-> -1, i |-> 1, d |-> -1]] /\ nops' = nops + 1
  /\ started' = [started EXCEPT ![s] = @ - 1]
  /\ UNCHANGED <<cnt, ring, pos, net>>
BeginDecay(p) ==
  /\ pc[p].k = "idle" /\ nops < MaxOps
  /\ pc' = [pc EXCEPT ![p] = [k |-> "take", s |-> NoT, d |-> 0]] /\ nops' = nops + 1
  /\ UNCHANGED <<cnt, ring, pos, net, started>>
\* count the trace first: published for decay before, it could be taken out before it is in
Bump1(p) ==
  /\ pc[p].k = "bump" /\ pc[p].i <= Len(H[pc[p].s])
  /\ cnt' = Bump(pc[p].s, pc[p].i, pc[p].v) /\ pc' = [pc EXCEPT ![p].i = @ + 1]
  /\ UNCHANGED <<ring, pos, net, started, nops>>
Counted(p) ==
  /\ pc[p].k = "bump" /\ pc[p].i > Len(H[pc[p].s])
  /\ net' = [net EXCEPT ![pc[p].s] = @ + pc[p].d]
  /\ started' = IF pc[p].d >= 0 THEN [started EXCEPT ![pc[p].s] = @ + pc[p].d] ELSE started
  /\ pc' = [pc EXCEPT ![p] = IF @.d < 0 THEN [k |-> "idle"] ELSE [k |-> "take", s |-> @.s, d |-> @.d]]
  /\ UNCHANGED <<cnt, ring, pos, nops>>
Take(p) ==
  /\ pc[p].k = "take" /\ pos' = pos + 1
  /\ pc' = [pc EXCEPT ![p] = [k |-> "swap", s |-> @.s, d |-> @.d, at |-> pos % D]]
  /\ UNCHANGED <<cnt, ring, net, started, nops>>
Swap(p) ==
  /\ pc[p].k = "swap"
  /\ ring' = [ring EXCEPT ![pc[p].at] = pc[p].s]
  /\ pc' = [pc EXCEPT ![p] = [k |-> "decay", old |-> ring[@.at], i |-> 1]]
  /\ UNCHANGED <<cnt, pos, net, started, nops>>
Decay(p) ==
  /\ pc[p].k = "decay"
  /\ IF pc[p].old = NoT \/ pc[p].i > Len(H[pc[p].old])
       THEN cnt' = cnt /\ pc' = [pc EXCEPT ![p] = [k |-> "idle"]]
       ELSE cnt' = Bump(pc[p].old, pc[p].i, -1) /\ pc' = [pc EXCEPT ![p].i = @ + 1]
  /\ UNCHANGED <<ring, pos, net, started, nops>>
Next == \E p \in Procs :
  \/ \E s \in Traces, v \in 0 .. MaxVal : BeginAdd(p, s, v)
  \/ \E s \in Traces : BeginRemove(p, s)
  \/ BeginDecay(p) \/ Bump1(p) \/ Counted(p) \/ Take(p) \/ Swap(p) \/ Decay(p)
Spec == Init /\ [][Next]_vars
Contains(s) == \A i \in DOMAIN H[s] : cnt[H[s][i]] # 0
Quiet == \A p \in Procs : pc[p].k = "idle"
InRing(s) == Cardinality({ i \in DOMAIN ring : ring[i] = s })
\* at every moment: a trace whose finished additions outweigh its started removals is reported
NoForgetNow == \A s \in Traces : started[s] > 0 => Contains(s)
NeverNegative == \A q \in Pos : cnt[q] >= 0
Occ(q) == { <<s, i>> \in Traces \X (1 .. 3) : i \in DOMAIN H[s] /\ H[s][i] = q }
RECURSIVE SumOver(_)
SumOver(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN net[x[1]] + InRing(x[1]) + SumOver(S \ {x})
\* at rest every position holds exactly what is in the filter: nothing lost, nothing twice
Exact == Quiet => \A q \in Pos : cnt[q] = SumOver(Occ(q))
NoForget == Quiet => \A s \in Traces : net[s] + InRing(s) > 0 => Contains(s)
\* the ring holds the last D additions
RingBound == \A p \in Procs : pc[p].k = "swap" => pc[p].at \in DOMAIN ring
Drained == (Quiet /\ \A s \in Traces : net[s] = 0 /\ InRing(s) = 0) => \A q \in Pos : cnt[q] = 0
=============================================================================
