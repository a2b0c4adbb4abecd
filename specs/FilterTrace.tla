----------------------------- MODULE FilterTrace ----------------------------
(* Histories of the real filters (calls and returns, possibly overlapping). *)
(* A reset line gives the ring length (0: plain counting filter), the       *)
(* collision classes of the traces (learnt by black-box calibration) and    *)
(* whether collisions are exact (one position per trace) or one-sided.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
T == 0 .. 3
VARIABLES l, d, cls, exact, val, low, ring, pos, pend
tvars == <<l, d, cls, exact, val, low, ring, pos, pend>>
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Idle == [k |-> "idle"]
S == DOMAIN cls
Init == l = 1 /\ d = 0 /\ cls = <<>> /\ exact = TRUE /\ val = <<>> /\ low = <<>> /\ ring = <<>> /\ pos = 0 /\ pend = [t \in T |-> Idle]
Reset == /\ IsOp("reset") /\ \A t \in T : pend[t] = Idle
         /\ d' = e.d /\ cls' = e.cls /\ exact' = e.exact /\ val' = [s \in DOMAIN e.cls |-> 0] /\ low' = [s \in DOMAIN e.cls |-> 0]
         /\ ring' = [i \in 1 .. e.d |-> 0] /\ pos' = 0 /\ UNCHANGED pend
Others(t) == { u \in T \ {t} : pend[u].k # "idle" }
\* any pending query sees the new lowest value and that it was overlapped
Disturb(p, t, lw) == [u \in T |-> IF u # t /\ p[u].k = "query"
     THEN [p[u] EXCEPT !.ov = TRUE, !.low = IF lw[p[u].s] < @ THEN lw[p[u].s] ELSE @] ELSE p[u]]
Call ==
  /\ IsOp("call") /\ pend[e.t].k = "idle"
  /\ CASE e.f = "add" /\ e.v >= 0 /\ d > 0 ->
            pend' = Disturb([pend EXCEPT ![e.t] = [k |-> "take", s |-> e.s, v |-> e.v]], e.t, low) /\ UNCHANGED <<val, low>>
       [] e.f = "add" /\ ~(e.v >= 0 /\ d > 0) ->
            LET lw == IF e.v < 0 THEN [low EXCEPT ![e.s] = @ + e.v] ELSE low IN
            /\ low' = lw /\ UNCHANGED val
            /\ pend' = Disturb([pend EXCEPT ![e.t] = [k |-> "add", s |-> e.s, v |-> e.v]], e.t, lw)
       [] e.f = "decay" /\ d > 0 ->
            pend' = Disturb([pend EXCEPT ![e.t] = [k |-> "take", s |-> 0, v |-> 0]], e.t, low) /\ UNCHANGED <<val, low>>
       [] e.f = "drain" /\ d > 0 /\ Others(e.t) = {} ->
            pend' = [pend EXCEPT ![e.t] = [k |-> "drained"]] /\ UNCHANGED <<val, low>>
       [] e.f = "contains" ->
            pend' = Disturb([pend EXCEPT ![e.t] = [k |-> "query", s |-> e.s, ov |-> Others(e.t) # {}, low |-> low[e.s]]], e.t, low)
            /\ UNCHANGED <<val, low>>
       [] OTHER -> FALSE
  /\ ring' = IF e.f = "drain" THEN [i \in DOMAIN ring |-> 0] ELSE ring
  /\ UNCHANGED <<d, cls, exact, pos>>
Take(t) == /\ l <= Len(Trace) /\ pend[t].k = "take"
           /\ pend' = [pend EXCEPT ![t] = [k |-> "swap", s |-> @.s, v |-> @.v, at |-> 1 + (pos % d)]]
           /\ pos' = pos + 1 /\ UNCHANGED <<l, d, cls, exact, val, low, ring>>
Swap(t) == /\ l <= Len(Trace) /\ pend[t].k = "swap"
           /\ ring' = [ring EXCEPT ![pend[t].at] = pend[t].s]
           /\ pend' = [pend EXCEPT ![t] = IF @.s = 0 THEN [k |-> "decayed"] ELSE [k |-> "add", s |-> @.s, v |-> @.v]]
           /\ UNCHANGED <<l, d, cls, exact, val, low, pos>>
RECURSIVE SumV(_)
SumV(U) == IF U = {} THEN 0 ELSE LET x == CHOOSE x \in U : TRUE IN val[x] + SumV(U \ {x})
Live(c) == LET U == { s \in S : cls[s] = c } IN SumV(U) + Cardinality({ i \in DOMAIN ring : ring[i] \in U })
Ret ==
  /\ IsOp("ret")
  /\ CASE e.f = "add" -> /\ pend[e.t].k = "add"
                         /\ val' = [val EXCEPT ![pend[e.t].s] = @ + pend[e.t].v]
                         /\ low' = IF pend[e.t].v >= 0 THEN [low EXCEPT ![pend[e.t].s] = @ + pend[e.t].v] ELSE low
       [] e.f = "decay" -> pend[e.t].k = "decayed" /\ UNCHANGED <<val, low>>
       [] e.f = "drain" -> pend[e.t].k = "drained" /\ UNCHANGED <<val, low>>
       [] e.f = "contains" ->
            /\ pend[e.t].k = "query" /\ UNCHANGED <<val, low>>
            /\ LET q == pend[e.t] IN
               IF q.ov
                 THEN \* overlapped: a trace added more than removed throughout is reported
                      (q.low > 0) => e.r
                 ELSE IF exact THEN e.r = (Live(cls[q.s]) # 0)
                 ELSE /\ Live(cls[q.s]) # 0 => e.r
                      /\ (\A s \in S : val[s] = 0 /\ \A i \in DOMAIN ring : ring[i] = 0) => ~e.r
       [] OTHER -> FALSE
  /\ pend' = [pend EXCEPT ![e.t] = Idle]
  /\ UNCHANGED <<d, cls, exact, ring, pos>>
Next == Reset \/ Call \/ Ret \/ \E t \in T : Take(t) \/ Swap(t)
Spec == Init /\ [][Next]_tvars
Track == IF TLCGet(1) < l THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"TRACE", TLCGet(1) - 1, Len(Trace)>>)
=============================================================================
