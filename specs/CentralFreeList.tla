--------------------------- MODULE CentralFreeList --------------------------
(* One central free list at the granularity of its lock: spans are fetched  *)
(* and built with the lock dropped, and returned to the page heap after it  *)
(* has been released.                                                       *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Spans, K, N, Threads
VARIABLES st, free, list, counter, requested, returned, hist, own, pc, reg
vars == <<st, free, list, counter, requested, returned, hist, own, pc, reg>>
Objs == Spans \X (1 .. K)
Of(S, s) == { o \in S : o[1] = s }
R0 == [batch |-> {}, n |-> 0, dead |-> {}, sp |-> 0]
BW(x) == CHOOSE b \in 0 .. 6 : x < 2 ^ b /\ (b = 0 \/ x >= 2 ^ (b - 1))
Out(s, f) == K - Cardinality(f[s])
Index(a) == IF K <= 16 THEN (IF a <= 8 THEN 8 - a ELSE 0) ELSE 8 - BW(a)
Bump(h, old, new) == [b \in DOMAIN h |-> h[b] - (IF b = old THEN 1 ELSE 0) + (IF b = new THEN 1 ELSE 0)]
None == -1
Init == /\ st = [s \in Spans |-> "none"] /\ free = [s \in Spans |-> {}] /\ list = [s \in Spans |-> None]
        /\ counter = 0 /\ requested = 0 /\ returned = 0 /\ hist = [b \in 1 .. 6 |-> 0]
        /\ own = [t \in Threads |-> {}] /\ pc = [t \in Threads |-> "idle"] /\ reg = [t \in Threads |-> R0]
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* --- insertion: whole batch in one critical section, then the dead spans go back without the lock
InsLock(t) ==
  /\ pc[t] = "idle"
  /\ \E S \in SUBSET own[t] :
     /\ S # {} /\ Cardinality(S) <= N
     /\ LET f == [s \in Spans |-> free[s] \cup { o[2] : o \in Of(S, s) }]
            hit == { o[1] : o \in S }
            dead == { s \in hit : Cardinality(f[s]) = K }
            a0 == [s \in Spans |-> Out(s, free)]
            a1 == [s \in Spans |-> Out(s, f)] IN
        /\ free' = [s \in Spans |-> IF s \in dead THEN {} ELSE f[s]]
        /\ list' = [s \in Spans |-> IF s \in dead THEN None ELSE IF s \in hit THEN Index(a1[s]) ELSE list[s]]
        /\ hist' = [b \in 1 .. 6 |-> hist[b] - Cardinality({ s \in hit : BW(a0[s]) = b }) + Cardinality({ s \in hit \ dead : BW(a1[s]) = b })]
        /\ counter' = counter + Cardinality(S) - K * Cardinality(dead)
        /\ returned' = returned + Cardinality(dead)
        /\ own' = [own EXCEPT ![t] = @ \ S]
        /\ st' = [s \in Spans |-> IF s \in dead THEN "dying" ELSE st[s]]
        /\ reg' = [reg EXCEPT ![t].dead = dead]
        /\ Go(t, IF dead = {} THEN "idle" ELSE "dealloc")
        /\ UNCHANGED requested
Dealloc(t) == /\ pc[t] = "dealloc" /\ st' = [s \in Spans |-> IF s \in reg[t].dead THEN "none" ELSE st[s]]
              /\ reg' = [reg EXCEPT ![t] = R0] /\ Go(t, "idle")
              /\ UNCHANGED <<free, list, counter, requested, returned, hist, own>>
\* --- removal: spans of the fullest list first; when none is left a new span is fetched with the lock dropped
Listed == { s \in Spans : list[s] # None }
RECURSIVE Takes(_, _, _)
\* all ways of serving n objects: pairs (objects, spans left untouched)
Takes(n, f, L) ==
  IF n = 0 \/ L = {} THEN {[got |-> {}, f |-> f]}
  ELSE LET lo == { s \in L : \A u \in L : list[s] <= list[u] } IN
       UNION { LET k == IF Cardinality(f[s]) < n THEN Cardinality(f[s]) ELSE n IN
               UNION { { [got |-> { <<s, i>> : i \in X } \cup r.got, f |-> r.f]
                         : r \in Takes(n - k, [f EXCEPT ![s] = @ \ X], L \ {s}) }
                       : X \in { Y \in SUBSET f[s] : Cardinality(Y) = k } } : s \in lo }
Settle(got, f) ==   \* lists and histogram after objects left their spans
  LET hit == { o[1] : o \in got } IN
  /\ free' = f
  /\ list' = [s \in Spans |-> IF s \notin hit THEN list[s] ELSE IF f[s] = {} THEN None ELSE Index(Out(s, f))]
  /\ hist' = [b \in 1 .. 6 |-> hist[b] - Cardinality({ s \in hit : BW(Out(s, free)) = b }) + Cardinality({ s \in hit : BW(Out(s, f)) = b })]
RemLock(t) ==
  /\ pc[t] = "idle"
  /\ \E n \in 1 .. N : \E r \in Takes(n, free, Listed) :
     /\ Settle(r.got, r.f)
     /\ IF Cardinality(r.got) = n
        THEN /\ own' = [own EXCEPT ![t] = @ \cup r.got] /\ counter' = counter - n /\ UNCHANGED <<reg, pc>>
        ELSE /\ reg' = [reg EXCEPT ![t] = [R0 EXCEPT !.batch = r.got, !.n = n]] /\ Go(t, "fetch") /\ UNCHANGED <<own, counter>>
     /\ UNCHANGED <<st, requested, returned>>
Finish(t, got) == /\ own' = [own EXCEPT ![t] = @ \cup got] /\ reg' = [reg EXCEPT ![t] = R0] /\ Go(t, "idle")
FetchFails(t) == /\ pc[t] = "fetch" /\ Finish(t, reg[t].batch) /\ counter' = counter - Cardinality(reg[t].batch)
                 /\ UNCHANGED <<st, free, list, requested, returned, hist>>
Fetch(t) == /\ pc[t] = "fetch"
            /\ \E s \in Spans : /\ st[s] = "none" /\ st' = [st EXCEPT ![s] = "private"] /\ reg' = [reg EXCEPT ![t].sp = s]
            /\ Go(t, "built") /\ UNCHANGED <<free, list, counter, requested, returned, hist, own>>
Built(t) ==
  /\ pc[t] = "built"
  /\ LET s == reg[t].sp
         w == reg[t].n - Cardinality(reg[t].batch)
         k == IF w < K THEN w ELSE K
         got == reg[t].batch \cup { <<s, i>> : i \in 1 .. k } IN
     /\ st' = [st EXCEPT ![s] = "live"] /\ free' = [free EXCEPT ![s] = (1 .. K) \ (1 .. k)]
     /\ list' = [list EXCEPT ![s] = IF k = K THEN None ELSE Index(k)]
     /\ hist' = Bump(hist, 0, BW(k)) /\ requested' = requested + 1
     /\ counter' = counter + K - Cardinality(got)
     /\ Finish(t, got) /\ UNCHANGED returned
Next == \E t \in Threads : InsLock(t) \/ Dealloc(t) \/ RemLock(t) \/ FetchFails(t) \/ Fetch(t) \/ Built(t)
Spec == Init /\ [][Next]_vars
\* --- properties
LiveSpans == { s \in Spans : st[s] = "live" }
Held(o) == Cardinality({ t \in Threads : o \in own[t] }) + Cardinality({ t \in Threads : o \in reg[t].batch })
OneOwner == \A s \in Spans : \A i \in 1 .. K :
  Held(<<s, i>>) + (IF i \in free[s] THEN 1 ELSE 0) = (IF st[s] = "live" THEN 1 ELSE 0)
Findable == \A s \in Spans : /\ list[s] # None <=> st[s] = "live" /\ free[s] # {}
                             /\ list[s] # None => list[s] = Index(Out(s, free))
GoneWhenUnused == \A s \in LiveSpans : Cardinality(free[s]) < K
Hist == \A b \in 1 .. 6 : hist[b] = Cardinality({ s \in LiveSpans : BW(Out(s, free)) = b })
\* objects taken by a removal that is still fetching are counted as free until it finishes
Counter == LET F[S \in SUBSET Spans] == IF S = {} THEN 0 ELSE LET s == CHOOSE x \in S : TRUE IN Cardinality(free[s]) + F[S \ {s}]
               P[T \in SUBSET Threads] == IF T = {} THEN 0 ELSE LET t == CHOOSE x \in T : TRUE IN Cardinality(reg[t].batch) + P[T \ {t}] IN
           counter = F[Spans] + P[Threads]
Totals == requested - returned = Cardinality(LiveSpans)
Cap == requested <= 4
=============================================================================
