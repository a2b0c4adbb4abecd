--------------------------- MODULE HookListTrace ----------------------------
(* Histories of the real table (concurrent calls and returns): accepted iff *)
(* some order of the effects inside the calls explains every result.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NH == 9                     \* hooks 0..8; 0 is the null hook
H == 0 .. NH - 1
T == 0 .. 3
VARIABLES l, cap, cnt, pend, lo, hi
tvars == <<l, cap, cnt, pend, lo, hi>>
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Zero == [h \in H |-> 0]
Idle == [k |-> "idle"]
RECURSIVE Sum(_, _)
Sum(f, h) == IF h < 0 THEN 0 ELSE f[h] + Sum(f, h - 1)
Total == Sum(cnt, NH - 1)
TInit == l = 1 /\ cap = 7 /\ cnt = Zero /\ pend = [t \in T |-> Idle] /\ lo = [t \in T |-> Zero] /\ hi = [t \in T |-> Zero]
Reset == IsOp("reset") /\ cap' = e.cap /\ cnt' = Zero /\ pend' = [t \in T |-> Idle]
         /\ lo' = [t \in T |-> Zero] /\ hi' = [t \in T |-> Zero]
Call == /\ IsOp("call") /\ pend[e.t].k = "idle"
        /\ pend' = [pend EXCEPT ![e.t] = [k |-> "called", f |-> e.f, h |-> e.h]]
        /\ lo' = [lo EXCEPT ![e.t] = cnt] /\ hi' = [hi EXCEPT ![e.t] = cnt]
        /\ UNCHANGED <<cap, cnt>>
Effect(t) ==                \* the instant an add or remove takes effect
  /\ l <= Len(Trace) /\ pend[t].k = "called" /\ pend[t].f \in {"add", "remove"}
  /\ LET h == pend[t].h
         ok == IF pend[t].f = "add" THEN h # 0 /\ Total < cap ELSE h # 0 /\ cnt[h] > 0 IN
     /\ pend' = [pend EXCEPT ![t] = [k |-> "done", r |-> ok]]
     /\ IF ~ok THEN UNCHANGED <<cnt, lo, hi>>
        ELSE IF pend[t].f = "add"
          THEN /\ cnt' = [cnt EXCEPT ![h] = @ + 1]
               /\ hi' = [u \in T |-> [hi[u] EXCEPT ![h] = @ + 1]] /\ UNCHANGED lo
          ELSE /\ cnt' = [cnt EXCEPT ![h] = @ - 1]
               /\ lo' = [u \in T |-> [lo[u] EXCEPT ![h] = IF @ > 0 THEN @ - 1 ELSE 0]] /\ UNCHANGED hi
  /\ UNCHANGED <<l, cap>>
Ret == /\ IsOp("ret")
       /\ \/ /\ e.f \in {"add", "remove"} /\ pend[e.t].k = "done" /\ pend[e.t].r = e.r
             /\ (e.quiet => (e.size >= 0 /\ e.size <= cap /\ e.empty = (Total = 0)))
          \/ /\ e.f = "traverse" /\ pend[e.t].k = "called"
             /\ \A k \in DOMAIN e.got : e.got[k] \in H \ {0}
             /\ \A h \in H : LET n == Cardinality({ k \in DOMAIN e.got : e.got[k] = h }) IN
                   /\ n <= hi[e.t][h]
                   /\ (e.n >= cap) => n >= lo[e.t][h]
             /\ Len(e.got) <= e.n
             /\ (e.n < cap /\ Len(e.got) < e.n) => \A h \in H :
                     Cardinality({ k \in DOMAIN e.got : e.got[k] = h }) >= lo[e.t][h]
             /\ e.args     \* the arguments every invoked hook saw were the event's
       /\ pend' = [pend EXCEPT ![e.t] = Idle]
       /\ UNCHANGED <<cap, cnt, lo, hi>>
TNext == Reset \/ Call \/ Ret \/ \E t \in T : Effect(t)
TSpec == TInit /\ [][TNext]_tvars
\* highest line reached (silent steps make the depth larger than the trace)
Track == IF TLCGet(1) < l THEN TLCSet(1, l) ELSE TRUE
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"TRACE", TLCGet(1) - 1, Len(Trace)>>)
=============================================================================
