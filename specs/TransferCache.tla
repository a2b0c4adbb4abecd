---------------------------- MODULE TransferCache ---------------------------
(* One middle-tier cache at the granularity of its lock: unlocked read of   *)
(* the packed (used, capacity) word, critical sections, hand-over to the    *)
(* next tier outside the lock, and plunder's lock/unlock windows.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Obj, Threads, B, Max, Cap0, N
VARIABLES held, cap, low, fl, own, pc, reg, plundered, quota
vars == <<held, cap, low, fl, own, pc, reg, plundered, quota>>
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Sub(S, n) == { X \in SUBSET S : Cardinality(X) = n }
Used == Cardinality(held)
R0 == [batch |-> {}, n |-> 0, tr |-> 0]
Init == /\ held = {} /\ cap = Cap0 /\ low = 0 /\ fl = Obj
        /\ own = [t \in Threads |-> {}] /\ pc = [t \in Threads |-> "idle"] /\ reg = [t \in Threads |-> R0]
        /\ plundered = 0 /\ quota = 0
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* --- insertion
InsCall(t) == /\ pc[t] = "idle" /\ own[t] # {}
              /\ \E S \in SUBSET own[t] : /\ S # {} /\ Cardinality(S) <= N
                   /\ reg' = [reg EXCEPT ![t] = [R0 EXCEPT !.batch = S]] /\ own' = [own EXCEPT ![t] = @ \ S]
              /\ Go(t, IF cap > Used THEN "insl" ELSE "insfl") /\ UNCHANGED <<held, cap, low, fl, plundered, quota>>
InsLock(t) == /\ pc[t] = "insl"
              /\ LET b == reg[t].batch
                     got == Min({Cardinality(b), cap - Used}) IN
                 \E S \in Sub(b, got) :
                 /\ held' = held \cup S
                 /\ reg' = [reg EXCEPT ![t].batch = b \ S]
                 /\ Go(t, IF S = b THEN "idle" ELSE "insfl")
              /\ UNCHANGED <<cap, low, fl, own, plundered, quota>>
InsFl(t) == /\ pc[t] = "insfl" /\ fl' = fl \cup reg[t].batch /\ reg' = [reg EXCEPT ![t] = R0] /\ Go(t, "idle")
            /\ UNCHANGED <<held, cap, low, own, plundered, quota>>
\* --- removal
RemCall(t) == /\ pc[t] = "idle" /\ \E n \in 1 .. N : reg' = [reg EXCEPT ![t] = [R0 EXCEPT !.n = n]]
              /\ Go(t, IF Used > 0 THEN "reml" ELSE "remfl") /\ UNCHANGED <<held, cap, low, fl, own, plundered, quota>>
RemLock(t) == /\ pc[t] = "reml"
              /\ LET got == Min({reg[t].n, Used}) IN
                 IF got = 0 THEN Go(t, "remfl") /\ UNCHANGED <<held, cap, low, fl, own, reg, plundered, quota>>
                 ELSE \E S \in Sub(held, got) :
                      /\ held' = held \ S /\ low' = Min({low, Used - got})
                      /\ own' = [own EXCEPT ![t] = @ \cup S]
                      /\ reg' = [reg EXCEPT ![t] = R0] /\ Go(t, "idle") /\ UNCHANGED <<cap, fl, plundered, quota>>
RemFl(t) == /\ pc[t] = "remfl"
            /\ \E S \in Sub(fl, Min({reg[t].n, Cardinality(fl)})) :
                 /\ fl' = fl \ S /\ own' = [own EXCEPT ![t] = @ \cup S]
            /\ reg' = [reg EXCEPT ![t] = R0] /\ Go(t, "idle") /\ UNCHANGED <<held, cap, low, plundered, quota>>
\* --- plunder
PlBatch(t, tr, lw) ==
  LET k == Min({B, Used, tr}) IN
  IF k = 0 THEN /\ low' = lw /\ Go(t, "idle") /\ reg' = [reg EXCEPT ![t] = R0] /\ UNCHANGED held
  ELSE \E S \in Sub(held, k) :
       /\ held' = held \ S /\ low' = Used - k
       /\ reg' = [reg EXCEPT ![t] = [R0 EXCEPT !.batch = S, !.tr = tr - k]] /\ Go(t, "plfl")
PlStart(t) == /\ pc[t] = "idle" /\ \A u \in Threads : pc[u] \notin {"plfl", "plre"}
              /\ plundered' = Min({B, Used, low}) /\ quota' = low
              /\ PlBatch(t, low, Used) /\ UNCHANGED <<cap, fl, own>>
PlFl(t) == /\ pc[t] = "plfl" /\ fl' = fl \cup reg[t].batch /\ reg' = [reg EXCEPT ![t].batch = {}] /\ Go(t, "plre")
           /\ UNCHANGED <<held, cap, low, own, plundered, quota>>
PlMore(t) == /\ pc[t] = "plre" /\ PlBatch(t, reg[t].tr, low)
             /\ plundered' = plundered + Min({B, Used, reg[t].tr}) /\ UNCHANGED <<cap, fl, own, quota>>
PlQuit(t) == /\ pc[t] = "plre" /\ reg' = [reg EXCEPT ![t] = R0] /\ Go(t, "idle") /\ UNCHANGED <<held, cap, low, fl, own, plundered, quota>>
\* --- capacity
Grow(t) == /\ pc[t] = "idle" /\ cap + B <= Max /\ cap' = cap + B
           /\ UNCHANGED <<held, low, fl, own, pc, reg, plundered, quota>>
Shrink(t) == /\ pc[t] = "idle" /\ cap > B /\ cap' = cap - B
             /\ LET ev == IF B <= cap - Used THEN 0 ELSE B - (cap - Used) IN
                IF ev = 0 THEN UNCHANGED <<held, low, pc, reg>>
                ELSE \E S \in Sub(held, ev) :
                     /\ held' = held \ S /\ low' = Min({low, Used - ev}) /\ Go(t, "insfl")
                     /\ reg' = [reg EXCEPT ![t] = [R0 EXCEPT !.batch = S]]
             /\ UNCHANGED <<fl, own, plundered, quota>>
Next == \E t \in Threads : InsCall(t) \/ InsLock(t) \/ InsFl(t) \/ RemCall(t) \/ RemLock(t) \/ RemFl(t)
                        \/ PlStart(t) \/ PlFl(t) \/ PlMore(t) \/ PlQuit(t) \/ Grow(t) \/ Shrink(t)
Spec == Init /\ [][Next]_vars
\* every object has exactly one owner
Owners(o) == (IF o \in held THEN 1 ELSE 0) + (IF o \in fl THEN 1 ELSE 0)
             + Cardinality({ t \in Threads : o \in own[t] }) + Cardinality({ t \in Threads : o \in reg[t].batch })
OneOwner == \A o \in Obj : Owners(o) = 1
Bounds == 0 <= low /\ low <= Used /\ Used <= cap /\ cap <= Max /\ cap > 0
PlunderIdle == plundered <= quota       \* never more than the low-water mark allowed
Sym == Permutations(Obj) \cup Permutations(Threads)
=============================================================================
