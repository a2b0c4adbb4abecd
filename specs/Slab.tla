-------------------------------- MODULE Slab --------------------------------
(* The per-CPU cache of internal/percpu_tcmalloc.h, one size class.         *)
(*                                                                          *)
(* Local operations run as restartable sections: the kernel restarts the    *)
(* section when its thread is preempted, migrated or interrupted, and it    *)
(* then also erases the thread's cached slab address.  Remote operations    *)
(* (drain, resize) set the stopped flag of a CPU and then fence it.         *)
(* Each action below is one memory access of the code, so that every        *)
(* preemption point is explored.                                            *)
(*                                                                          *)
(* Fence, CheckStopped, Recheck and Restart say which of the mechanisms are *)
(* present; without any one of them an invariant fails (SlabNo*.cfg), which *)
(* shows that the model is able to express the failures they prevent.       *)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Threads, Cpus, Items, Cap,
          Fence, CheckStopped, Recheck, Restart, MaxResizes

VARIABLES mem,      \* mem[v][c] = [cur, slot]: slab v of CPU c
          ver,      \* the slab array in use
          stopped,  \* stopped[c]
          run,      \* run[c]: the thread running on CPU c, or None
          th,       \* thread state
          out,      \* out[t]: items held by the program (thread t)
          rem,      \* the remote operation in progress
          sink,     \* items handed back by remote operations
          resizes

vars == <<mem, ver, stopped, run, th, out, rem, sink, resizes>>

None == "none"
Mask == "mask"   \* the cached bit alone, while the address is being computed

Empty == [cur |-> 0, slot |-> [i \in 1..Cap |-> None]]
Idle == [pc |-> "idle", cached |-> <<None>>, item |-> None, cur |-> 0,
         cpu |-> None, v |-> 0, op |-> None]

Init ==
  /\ mem = [v \in 0..1 |-> [c \in Cpus |-> Empty]]
  /\ ver = 0
  /\ stopped = [c \in Cpus |-> FALSE]
  /\ run = [c \in Cpus |-> None]
  /\ th = [t \in Threads |-> Idle]
  /\ out \in {f \in [Threads -> SUBSET Items] :
              \A i \in Items : Cardinality({t \in Threads : i \in f[t]}) = 1}
  /\ rem = [pc |-> "idle", cpu |-> None, cur |-> 0, old |-> 0, left |-> {},
            kind |-> None]
  /\ sink = {}
  /\ resizes = 0

\* Registers that are not used any more are forgotten.
Clean(s) ==
  [s EXCEPT !.cpu = None, !.v = 0, !.cur = 0,
            !.item = IF s.pc = "idle" \/ s.op = "pop" THEN None ELSE @,
            !.op = IF s.pc = "idle" THEN None ELSE @]

Section(p) == p \in {"push1", "push2", "push3", "pop1", "pop2"}

\* What the kernel does to a thread that it preempts, migrates or interrupts.
Interrupted(s) ==
  LET i ==
  [s EXCEPT !.cached = <<None>>,
            !.pc = IF Section(s.pc) /\ Restart
                   THEN (IF s.op = "push" THEN "push0" ELSE "pop0") ELSE s.pc]
  IN IF i.pc \in {"push0", "pop0"} THEN Clean(i) ELSE i

Running(t) == \E c \in Cpus : run[c] = t
CpuOf(t) == CHOOSE c \in Cpus : run[c] = t

\* The scheduler puts t on CPU c, in place of whatever ran there.
Schedule(t, c) ==
  /\ ~Running(t)
  /\ run' = [run EXCEPT ![c] = t]
  /\ th' = [u \in Threads |->
              IF u = run[c] \/ u = t THEN Interrupted(th[u]) ELSE th[u]]
  /\ UNCHANGED <<mem, ver, stopped, out, rem, sink, resizes>>

Step(t, new) ==
  /\ Running(t)
  /\ th' = [th EXCEPT ![t] = IF new.pc \in {"idle", "push0", "pop0", "slow1"}
                             THEN Clean(new) ELSE new]

\* ---- local operations ----
BeginPush(t) ==
  /\ th[t].pc = "idle"
  /\ \E i \in out[t] :
       Step(t, [th[t] EXCEPT !.pc = "push0", !.op = "push", !.item = i])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

BeginPop(t) ==
  /\ th[t].pc = "idle"
  /\ Step(t, [th[t] EXCEPT !.pc = "pop0", !.op = "pop"])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

\* Reads the cached address.  Without one the operation fails, and the slow
\* path tries to cache it.
ReadCached(t) ==
  /\ th[t].pc \in {"push0", "pop0"}
  /\ IF th[t].cached[1] = "at"
     THEN Step(t, [th[t] EXCEPT !.pc = IF th[t].op = "push" THEN "push1"
                                       ELSE "pop1",
                                !.v = th[t].cached[2], !.cpu = th[t].cached[3]])
     ELSE Step(t, [th[t] EXCEPT !.pc = "slow1"])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

Slab(t) == mem[th[t].v][th[t].cpu]

Push1(t) ==
  /\ th[t].pc = "push1"
  /\ IF Slab(t).cur >= Cap
     THEN Step(t, [th[t] EXCEPT !.pc = "idle", !.item = None])
     ELSE Step(t, [th[t] EXCEPT !.pc = "push2", !.cur = Slab(t).cur])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

Push2(t) ==
  /\ th[t].pc = "push2"
  /\ mem' = [mem EXCEPT ![th[t].v][th[t].cpu].slot[th[t].cur + 1] = th[t].item]
  /\ Step(t, [th[t] EXCEPT !.pc = "push3"])
  /\ UNCHANGED <<ver, stopped, run, out, rem, sink, resizes>>

\* The commit: a single store.
Push3(t) ==
  /\ th[t].pc = "push3"
  /\ mem' = [mem EXCEPT ![th[t].v][th[t].cpu].cur = th[t].cur + 1]
  /\ out' = [out EXCEPT ![t] = @ \ {th[t].item}]
  /\ Step(t, [th[t] EXCEPT !.pc = "idle", !.item = None])
  /\ UNCHANGED <<ver, stopped, run, rem, sink, resizes>>

Pop1(t) ==
  /\ th[t].pc = "pop1"
  /\ IF Slab(t).cur = 0
     THEN Step(t, [th[t] EXCEPT !.pc = "idle"])
     ELSE Step(t, [th[t] EXCEPT !.pc = "pop2", !.cur = Slab(t).cur,
                                !.item = Slab(t).slot[Slab(t).cur]])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

Pop2(t) ==
  /\ th[t].pc = "pop2"
  /\ mem' = [mem EXCEPT ![th[t].v][th[t].cpu] =
                [cur |-> th[t].cur - 1,
                 slot |-> [@.slot EXCEPT ![th[t].cur] = None]]]
  /\ out' = [out EXCEPT ![t] = @ \cup {th[t].item}]
  /\ Step(t, [th[t] EXCEPT !.pc = "idle", !.item = None])
  /\ UNCHANGED <<ver, stopped, run, rem, sink, resizes>>

\* ---- caching the slab address (CacheCpuSlabSlow) ----
Slow1(t) ==
  /\ th[t].pc = "slow1"
  /\ Step(t, [th[t] EXCEPT !.pc = "slow2", !.cached = <<Mask>>])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

Slow2(t) ==
  /\ th[t].pc = "slow2"
  /\ Step(t, [th[t] EXCEPT !.pc = "slow3", !.cpu = CpuOf(t)])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

Slow3(t) ==
  /\ th[t].pc = "slow3"
  /\ Step(t, [th[t] EXCEPT !.pc = "slow4", !.v = ver])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

\* The store is itself a restartable section.
Slow4(t) ==
  /\ th[t].pc = "slow4"
  /\ IF th[t].cached = <<Mask>>
     THEN Step(t, [th[t] EXCEPT !.pc = "slow5",
                                !.cached = <<"at", th[t].v, th[t].cpu>>])
     ELSE Step(t, [th[t] EXCEPT !.pc = "slow1"])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

Slow5(t) ==
  /\ th[t].pc = "slow5"
  /\ IF CheckStopped /\ stopped[th[t].cpu]
     THEN Step(t, [th[t] EXCEPT !.pc = "idle", !.cached = <<None>>,
                                !.item = None])
     ELSE Step(t, [th[t] EXCEPT !.pc = "slow6"])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

Slow6(t) ==
  /\ th[t].pc = "slow6"
  /\ IF Recheck /\ th[t].v # ver
     THEN Step(t, [th[t] EXCEPT !.pc = "slow1"])
     ELSE Step(t, [th[t] EXCEPT !.pc = IF th[t].op = "push" THEN "push0"
                                       ELSE "pop0"])
  /\ UNCHANGED <<mem, ver, stopped, run, out, rem, sink, resizes>>

\* ---- remote operations; one at a time (the caller holds a lock) ----
FenceOn(cs) ==
  th' = IF Fence THEN [t \in Threads |->
                         IF \E c \in cs : run[c] = t THEN Interrupted(th[t])
                         ELSE th[t]]
        ELSE th

DrainStop(c) ==
  /\ rem.pc = "idle"
  /\ stopped' = [stopped EXCEPT ![c] = TRUE]
  /\ rem' = [rem EXCEPT !.pc = "fence", !.cpu = c, !.kind = "drain"]
  /\ UNCHANGED <<mem, ver, run, th, out, sink, resizes>>

ResizeStop ==
  /\ rem.pc = "idle"
  /\ resizes < MaxResizes
  /\ resizes' = resizes + 1
  /\ stopped' = [c \in Cpus |-> TRUE]
  /\ mem' = [mem EXCEPT ![1 - ver] = [c \in Cpus |-> Empty]]
  /\ rem' = [rem EXCEPT !.pc = "fence", !.kind = "resize"]
  /\ UNCHANGED <<ver, run, th, out, sink>>

RemFence ==
  /\ rem.pc = "fence"
  /\ FenceOn(IF rem.kind = "drain" THEN {rem.cpu} ELSE Cpus)
  /\ rem' = [rem EXCEPT !.pc = IF rem.kind = "drain" THEN "read" ELSE "swap"]
  /\ UNCHANGED <<mem, ver, stopped, run, out, sink, resizes>>

Taken(m) == {m.slot[i] : i \in 1..m.cur}

RemRead ==
  /\ rem.pc = "read"
  /\ rem' = [rem EXCEPT !.pc = "store", !.cur = mem[ver][rem.cpu].cur]
  /\ UNCHANGED <<mem, ver, stopped, run, th, out, sink, resizes>>

RemStore ==
  /\ rem.pc = "store"
  /\ sink' = sink \cup {mem[ver][rem.cpu].slot[i] : i \in 1..rem.cur}
  /\ mem' = [mem EXCEPT ![ver][rem.cpu] = Empty]
  /\ rem' = [rem EXCEPT !.pc = "start"]
  /\ UNCHANGED <<ver, stopped, run, th, out, resizes>>

RemStart ==
  /\ rem.pc = "start"
  /\ stopped' = [stopped EXCEPT ![rem.cpu] = FALSE]
  /\ rem' = [rem EXCEPT !.pc = "idle", !.cpu = None, !.cur = 0, !.kind = None]
  /\ UNCHANGED <<mem, ver, run, th, out, sink, resizes>>

RemSwap ==
  /\ rem.pc = "swap"
  /\ ver' = 1 - ver
  /\ rem' = [rem EXCEPT !.pc = "restart", !.old = ver, !.left = Cpus]
  /\ UNCHANGED <<mem, stopped, run, th, out, sink, resizes>>

RemRestart ==
  /\ rem.pc = "restart"
  /\ stopped' = [c \in Cpus |-> FALSE]
  /\ rem' = [rem EXCEPT !.pc = "old"]
  /\ UNCHANGED <<mem, ver, run, th, out, sink, resizes>>

RemOld ==
  /\ rem.pc = "old"
  /\ IF rem.left = {}
     THEN /\ rem' = [rem EXCEPT !.pc = "idle", !.old = 0, !.kind = None]
          /\ UNCHANGED <<mem, sink>>
     ELSE \E c \in rem.left :
            /\ sink' = sink \cup Taken(mem[rem.old][c])
            /\ mem' = [mem EXCEPT ![rem.old][c] = Empty]
            /\ rem' = [rem EXCEPT !.left = @ \ {c}]
  /\ UNCHANGED <<ver, stopped, run, th, out, resizes>>

\* The program gets items that a remote operation handed back.
Reuse(t) ==
  /\ sink # {}
  /\ rem.pc = "idle"
  /\ out' = [out EXCEPT ![t] = @ \cup sink]
  /\ sink' = {}
  /\ UNCHANGED <<mem, ver, stopped, run, th, rem, resizes>>

Next ==
  \/ \E t \in Threads :
       \/ \E c \in Cpus : Schedule(t, c)
       \/ BeginPush(t) \/ BeginPop(t) \/ ReadCached(t)
       \/ Push1(t) \/ Push2(t) \/ Push3(t) \/ Pop1(t) \/ Pop2(t)
       \/ Slow1(t) \/ Slow2(t) \/ Slow3(t) \/ Slow4(t) \/ Slow5(t) \/ Slow6(t)
       \/ Reuse(t)
  \/ \E c \in Cpus : DrainStop(c)
  \/ ResizeStop \/ RemFence \/ RemRead \/ RemStore \/ RemStart
  \/ RemSwap \/ RemRestart \/ RemOld

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The slabs whose contents count: the one in use, and the old one until the
\* resize has drained it.
Live == {<<ver, c>> : c \in Cpus}
        \cup (IF rem.pc \in {"restart", "old"}
              THEN {<<1 - ver, c>> : c \in rem.left} ELSE {})

\* Where item i is, as many times as it is there.
InSlabs(i) == {<<p, k>> \in Live \X (1..Cap) :
                 k <= mem[p[1]][p[2]].cur /\ mem[p[1]][p[2]].slot[k] = i}
Places(i) == Cardinality(InSlabs(i))
             + Cardinality({t \in Threads : i \in out[t]})
             + (IF i \in sink THEN 1 ELSE 0)

\* Each object is in exactly one place (a drain that has handed its objects
\* back resets the header in the same step).
ExactlyOnce == \A i \in Items : Places(i) = 1

WithinCapacity ==
  \A v \in 0..1, c \in Cpus : mem[v][c].cur \in 0..Cap

\* While a remote operation works on a stopped and fenced CPU, no local
\* operation is past reading the slab address of that CPU.
Excluded ==
  rem.pc \in {"read", "store", "swap"} =>
    \A t \in Threads :
      (Running(t) /\ Section(th[t].pc)) =>
        (rem.kind = "drain" /\ th[t].cpu # rem.cpu)

\* Only the thread that runs on a CPU can be about to commit to its slab.
OwnCpu ==
  \A t \in Threads :
    (Running(t) /\ Section(th[t].pc)) => th[t].cpu = CpuOf(t)

Symmetric == Permutations(Threads) \cup Permutations(Cpus)
             \cup Permutations(Items)
=============================================================================
