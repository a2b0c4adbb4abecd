------------------------------ MODULE SlabTrace ------------------------------
(* Validates recorded histories of the per-CPU cache against its abstract   *)
(* meaning: for each CPU and size class a set of objects and a capacity.    *)
(* An operation takes effect at one moment between its call and its return  *)
(* (a silent step), however often and wherever it was interrupted: local    *)
(* operations on the CPU that their thread is on at that moment.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
e(i) == Trace[i]

VARIABLES i, slab, max, aff, pend, hp, popd

vars == <<i, slab, max, aff, pend, hp, popd>>

ASSUME TLCSet(1, 1)

ToSet(s) == {s[k] : k \in 1..Len(s)}
Least(a, b) == IF a < b THEN a ELSE b
Classes == 1..5
Fresh == [x |-> {}, cap |-> 0]
NoOp == [on |-> FALSE, done |-> FALSE, over |-> FALSE, at |-> 0]

Init ==
  /\ i = 1
  /\ slab = <<>> /\ max = <<>>
  /\ aff = [t \in {"a", "b"} |-> 0]
  /\ pend = [t \in {"a", "b", "r"} |-> NoOp]
  /\ hp = <<>>
  /\ popd = {}

\* The index of the return of the operation of thread t called at line k.
RECURSIVE Return(_, _)
Return(t, k) == IF e(k).e = "ret" /\ e(k).t = t THEN k ELSE Return(t, k + 1)

Cpus == DOMAIN slab

Config ==
  /\ e(i).e = "cfg"
  /\ slab' = [c \in 0..(e(i).n - 1) |-> [k \in Classes |-> Fresh]]
  /\ max' = e(i).mx
  /\ hp' = e(i).hp
  /\ UNCHANGED <<aff, pend, popd>>

Move ==
  /\ e(i).e = "mv"
  /\ aff' = [aff EXCEPT ![e(i).t] = e(i).cpu]
  /\ UNCHANGED <<slab, max, pend, hp, popd>>

Call ==
  /\ e(i).e = "call"
  /\ ~pend[e(i).t].on
  /\ pend' = [u \in DOMAIN pend |->
       IF u = e(i).t
       THEN [on |-> TRUE, done |-> FALSE, at |-> i, over |-> pend["r"].on]
       ELSE IF e(i).t = "r" THEN [pend[u] EXCEPT !.over = TRUE] ELSE pend[u]]
  /\ UNCHANGED <<slab, max, aff, hp, popd>>

Ret ==
  /\ e(i).e = "ret"
  /\ pend[e(i).t].on /\ pend[e(i).t].done
  /\ pend' = [pend EXCEPT ![e(i).t] = NoOp]
  /\ UNCHANGED <<slab, max, aff, hp, popd>>

Stat ==
  /\ e(i).e = "stat"
  /\ e(i).len = Cardinality(slab[e(i).cpu][e(i).c].x)
  /\ e(i).cap = slab[e(i).cpu][e(i).c].cap
  /\ UNCHANGED <<slab, max, aff, pend, hp, popd>>

\* Every object has been handed back.
End ==
  /\ e(i).e = "end"
  /\ e(i).out = e(i).all
  /\ \A c \in Cpus, k \in Classes : slab[c][k].x = {}
  /\ UNCHANGED <<slab, max, aff, pend, hp, popd>>

\* Threads ran freely; the driver followed who owns each object.
Stress ==
  /\ e(i).e = "stress"
  /\ e(i).dup = 0 /\ e(i).bad = 0 /\ e(i).out = e(i).all
  /\ UNCHANGED <<slab, max, aff, pend, hp, popd>>

-----------------------------------------------------------------------------
\* Effects. p: the call, r: its return, c: the CPU.
InSlabs == UNION {slab[c][k].x : c \in Cpus, k \in Classes}

Push(p, r, c) ==
  LET s == slab[c][p.c]
      moved == ToSet(p.x) \ ToSet(r.x)
  IN
  /\ Cardinality(ToSet(r.x)) = Len(r.x)
  /\ ToSet(r.x) \subseteq ToSet(p.x)
  /\ Cardinality(moved) = r.k
  /\ moved \cap InSlabs = {}
  /\ IF r.st = "ok"
     THEN r.k = Least(Len(p.x), s.cap - Cardinality(s.x)) /\ r.k > 0
     ELSE r.k = 0 /\ s.cap = Cardinality(s.x)
  /\ slab' = [slab EXCEPT ![c][p.c].x = @ \cup moved]

Pop(p, r, c) ==
  LET s == slab[c][p.c]
      want == IF p.op = "pop" THEN 1 ELSE p.n
  IN
  /\ Len(r.x) = r.k
  /\ Cardinality(ToSet(r.x)) = r.k
  /\ ToSet(r.x) \subseteq s.x
  /\ IF r.st = "ok" THEN r.k = Least(want, Cardinality(s.x)) /\ r.k > 0
     ELSE r.k = 0 /\ s.x = {}
  /\ slab' = [slab EXCEPT ![c][p.c].x = @ \ ToSet(r.x)]

Grow(p, r, c) ==
  LET s == slab[c][p.c] IN
  /\ IF r.st = "ok"
     THEN r.cpu = c /\ r.k > 0 /\ r.k = Least(p.n, max[p.c] - s.cap)
     ELSE r.k = 0 /\ s.cap >= max[p.c]
  /\ slab' = [slab EXCEPT ![c][p.c].cap = @ + r.k]

Local(t) ==
  /\ t \in {"a", "b"}
  /\ LET p == e(pend[t].at)
         r == e(Return(t, i))
     IN
     /\ r.st # "loop"
     /\ IF r.st = "stop"
        THEN /\ pend[t].over          \* only while a CPU is stopped
             /\ r.k = 0
             /\ (p.op \in {"push", "pushb"} => ToSet(r.x) = ToSet(p.x))
             /\ UNCHANGED slab
        ELSE \/ p.op \in {"push", "pushb"} /\ Push(p, r, aff[t])
             \/ p.op \in {"pop", "popb"} /\ Pop(p, r, aff[t])
             \/ p.op = "grow" /\ Grow(p, r, aff[t])
  /\ UNCHANGED <<max, hp, popd>>

\* What was handed back: exactly what each (CPU, class) of cs held.
HandedBack(r, cs, withcap) ==
  LET cb == r.cb IN
  /\ \A k \in 1..Len(cb) :
       /\ cb[k].cpu \in cs /\ cb[k].c \in Classes
       /\ Len(cb[k].x) = Cardinality(ToSet(cb[k].x))
       /\ ToSet(cb[k].x) = slab[cb[k].cpu][cb[k].c].x
       /\ withcap => cb[k].cap = slab[cb[k].cpu][cb[k].c].cap
  /\ \A k, l \in 1..Len(cb) : k # l => <<cb[k].cpu, cb[k].c>> # <<cb[l].cpu, cb[l].c>>
  /\ \A c \in cs, n \in Classes :
       slab[c][n] # Fresh =>
         \E k \in 1..Len(cb) : cb[k].cpu = c /\ cb[k].c = n

Emptied(cs) == [c \in Cpus |-> IF c \in cs THEN [k \in Classes |-> Fresh]
                               ELSE slab[c]]

Drain(p, r) ==
  /\ HandedBack(r, {p.cpu}, TRUE)
  /\ slab' = Emptied({p.cpu})
  /\ UNCHANGED <<max, hp, popd>>

GrowOther(p, r) ==
  /\ r.k = Least(p.n, max[p.c] - slab[p.cpu][p.c].cap)
  /\ Len(r.cb) = 0
  /\ slab' = [slab EXCEPT ![p.cpu][p.c].cap = @ + r.k]
  /\ UNCHANGED <<max, hp, popd>>

Shrink(p, r) ==
  LET s == slab[p.cpu][p.c]
      unused == s.cap - Cardinality(s.x)
      pop == IF unused < p.n THEN Least(p.n - unused, Cardinality(s.x)) ELSE 0
      x == IF Len(r.cb) = 0 THEN <<>> ELSE r.cb[1].x
  IN
  /\ r.k = Least(p.n, s.cap)
  /\ Len(r.cb) <= 1
  /\ \A k \in 1..Len(r.cb) : r.cb[k].c = p.c
  /\ Len(x) = pop /\ Cardinality(ToSet(x)) = pop
  /\ ToSet(x) \subseteq s.x
  /\ slab' = [slab EXCEPT ![p.cpu][p.c] = [x |-> s.x \ ToSet(x), cap |-> s.cap - r.k]]
  /\ UNCHANGED <<max, hp, popd>>

InitCpu(p, r) ==
  /\ slab' = Emptied({p.cpu})
  /\ popd' = popd \cup {p.cpu}
  /\ UNCHANGED <<max, hp>>

Resize(p, r) ==
  /\ HandedBack(r, popd, TRUE)
  /\ r.old
  /\ slab' = Emptied(popd)
  /\ max' = p.mx
  /\ hp' = r.hp
  /\ UNCHANGED popd

\* A hugepage of slab memory is given up exactly when it holds the slab of
\* some populated CPU and all of those are drained.
Release(p, r) ==
  LET drained(c) == slab[c] = [k \in Classes |-> Fresh]
      give == {k \in 1..Len(hp) :
                 /\ ToSet(hp[k]) \cap popd # {}
                 /\ \A c \in ToSet(hp[k]) \cap popd : drained(c)}
      gone == UNION {ToSet(hp[k]) : k \in give}
  IN
  /\ r.hps = Cardinality(give)
  /\ r.inside
  /\ ToSet(r.un) = gone
  /\ popd' = popd \ gone
  /\ slab' = slab
  /\ UNCHANGED <<max, hp>>

Remote ==
  LET p == e(pend["r"].at)
      r == e(Return("r", i))
  IN
  \/ p.op = "drain" /\ Drain(p, r)
  \/ p.op = "growo" /\ GrowOther(p, r)
  \/ p.op = "shrink" /\ Shrink(p, r)
  \/ p.op = "init" /\ InitCpu(p, r)
  \/ p.op \in {"resize", "updmax"} /\ Resize(p, r)
  \/ p.op = "release" /\ Release(p, r)

Effect(t) ==
  /\ i <= N
  /\ pend[t].on /\ ~pend[t].done
  /\ (IF t = "r" THEN Remote ELSE Local(t))
  /\ pend' = [pend EXCEPT ![t].done = TRUE]
  /\ UNCHANGED <<i, aff>>

Line ==
  /\ i <= N
  /\ \/ Config \/ Move \/ Call \/ Ret \/ Stat \/ End \/ Stress
  /\ i' = i + 1

Next == Line \/ \E t \in {"a", "b", "r"} : Effect(t)

Spec == Init /\ [][Next]_vars

Track == IF TLCGet(1) < i THEN TLCSet(1, i) ELSE TRUE
Accepted == PrintT(<<"TRACE", TLCGet(1) - 1, N>>)
=============================================================================
