--------------------------- MODULE CpuCacheTrace ---------------------------
(***************************************************************************)
(* Validates recorded histories of CpuCache against what CpuCache.tla      *)
(* demands: capacity is conserved for each CPU and over all CPUs, objects  *)
(* are in one place, what is reported is what is there, and each operation *)
(* changes what it may change.                                             *)
(*                                                                         *)
(* Operations are intervals (call .. ret); what they fetch from and put    *)
(* into the tier behind the caches is recorded when it happens.  The state *)
(* is recorded when no operation is in progress.  When operations do not   *)
(* overlap, the objects of each CPU are known (cells <<cpu, class>>);      *)
(* otherwise they are only known to be in some CPU's cache (cell <<0, k>>).*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, st, fe, user, back, op, used, overlap
\* st: last known state; fe: objects by cell; op: calls in progress by thread; used: what TryDrainingCaches saw last
vars == <<i, st, fe, user, back, op, used, overlap>>

Cfg == Trace[1]
\* Free-running traces have no objects of their own.
N == Cfg.n
Cpus == 1..N
K == Len(Cfg.sz)
Ks == 1..K
Ids(k) == ((k - 1) * Cfg.per)..(k * Cfg.per - 1)
SetOf(s) == {s[j] : j \in 1..Len(s)}
Total(f(_), S) == MapThenSumSet(f, S)
Bytes(v) == MapThenSumSet(LAMBDA k : v[k] * Cfg.sz[k], Ks)
None == [op |-> "", k |-> 0, id |-> -1, cpu |-> 0, rel |-> FALSE, fetched |-> 0, bytes |-> 0]
Ts == {"a", "b", "r", "d"}
Zero == [k \in Ks |-> 0]
Vec(v) == [k \in Ks |-> v[k]]

Init == /\ i = 2
        /\ st = Cfg.st
        /\ fe = [c \in 0..N |-> [k \in Ks |-> {}]]
        /\ user = {}
        /\ back = [k \in Ks |-> Ids(k)]
        /\ op = [t \in Ts |-> None]
        /\ used = [c \in Cpus |-> [bytes |-> 0, miss |-> 0]]
        /\ overlap = FALSE

(* ------------------------------ any state ------------------------------ *)
CpuOk(s, c) ==
  LET q == s.cpu[c] IN
  /\ q.alloc = Bytes(q.caps)
  /\ q.capac = q.avail + q.alloc
  /\ q.used = Bytes(q.lens)
  /\ \A k \in Ks : 0 <= q.lens[k] /\ q.lens[k] <= q.caps[k] /\ q.caps[k] <= s.mx[k]
  /\ ~q.odd
  /\ q.pop \/ (Vec(q.caps) = Zero /\ Vec(q.lens) = Zero)
Sums(s) ==
  /\ MapThenSumSet(LAMBDA c : s.cpu[c].capac, Cpus) + s.restcap = MapThenSumSet(LAMBDA c : Cfg.st.cpu[c].capac, Cpus) + Cfg.st.restcap
  /\ s.restavail = s.restcap /\ s.restcap = Cfg.st.restcap /\ ~s.restpop
  /\ \A k \in Ks : s.tot[k] = MapThenSumSet(LAMBDA c : s.cpu[c].lens[k], Cpus)
  /\ s.totused = MapThenSumSet(LAMBDA c : s.cpu[c].used, Cpus)
  /\ MapThenSumSet(LAMBDA k : s.raw[k], Ks) = MapThenSumSet(LAMBDA k : Cfg.st.raw[k], Ks)
  /\ \A k \in Ks : s.mx[k] <= s.raw[k]
  /\ Cfg.lo <= s.shift /\ s.shift <= Cfg.hi
  /\ s.metaok
Held(s, f) ==
  IF overlap THEN \A k \in Ks : s.tot[k] = Cardinality(f[0][k])
             ELSE \A c \in Cpus, k \in Ks : s.cpu[c].lens[k] = Cardinality(f[c][k])
StateOk(s, f) == (\A c \in Cpus : CpuOk(s, c)) /\ Sums(s) /\ Held(s, f)

(* ------------------- what one operation alone may do ------------------- *)
SameCpu(s, c) == s.cpu[c] = st.cpu[c]
SameCapac(s) == \A c \in Cpus : s.cpu[c].capac = st.cpu[c].capac
SameLimits(s) == s.mx = st.mx /\ s.raw = st.raw /\ s.shift = st.shift
Emptied(s, c) == s.cpu[c].avail = s.cpu[c].capac /\ Vec(s.cpu[c].lens) = Zero
SamePop(s) == \A c \in Cpus : s.cpu[c].pop = st.cpu[c].pop
SameDrains(s) == \A c \in Cpus : s.cpu[c].drains = st.cpu[c].drains

MissOk(o, s) ==
  LET c == o.cpu IN
  /\ c \in Cpus
  /\ \A d \in Cpus \ {c} : SameCpu(s, d)
  /\ SameCapac(s) /\ SameLimits(s) /\ SameDrains(s)
  /\ s.climit = st.climit
  /\ \A k \in Ks : IF k = o.k THEN s.cpu[c].caps[k] >= st.cpu[c].caps[k] ELSE s.cpu[c].caps[k] = st.cpu[c].caps[k]
  /\ s.cpu[c].pop
DrainOk(o, e, s) ==
  LET c == o.cpu IN
  /\ \A d \in Cpus \ {c} : SameCpu(s, d)
  /\ SameCapac(s) /\ SameLimits(s) /\ SamePop(s)
  /\ IF st.cpu[c].pop
     THEN Emptied(s, c) /\ e.res = st.cpu[c].used /\ s.cpu[c].drains = st.cpu[c].drains + 1
     ELSE SameCpu(s, c) /\ e.res = 0
ResizeOk(s) == SameCapac(s) /\ SameLimits(s) /\ SamePop(s) /\ SameDrains(s)
ShuffleOk(s) ==
  /\ SameLimits(s) /\ SamePop(s) /\ SameDrains(s)
  /\ \A c \in Cpus, k \in Ks : s.cpu[c].caps[k] <= st.cpu[c].caps[k]
\* CPUs whose use did not change since the last time and that did not miss are drained.
Idle(c) == st.cpu[c].pop /\ st.cpu[c].used # 0 /\ st.cpu[c].used = used[c].bytes /\ st.cpu[c].miss = used[c].miss
TryDrainOk(o, s) ==
  /\ SameCapac(s) /\ SameLimits(s)
  /\ \A c \in Cpus :
       /\ IF Idle(c) THEN Emptied(s, c) /\ s.cpu[c].drains = st.cpu[c].drains + 1
                     ELSE [s.cpu[c] EXCEPT !.pop = TRUE] = [st.cpu[c] EXCEPT !.pop = TRUE]
       /\ (s.cpu[c].pop = st.cpu[c].pop) \/ (o.rel /\ st.cpu[c].pop /\ Emptied(s, c))
  /\ (\E c \in Cpus : Idle(c)) \/ SamePop(s)
NewSlabs(s) == SameCapac(s) /\ SamePop(s) /\ SameDrains(s) /\ \A c \in Cpus : Emptied(s, c)
MaxCapsOk(s) ==
  /\ s.shift = st.shift
  /\ IF s.raw = st.raw THEN ResizeOk(s) /\ (NewSlabs(s) \/ \A c \in Cpus : SameCpu(s, c))
     ELSE NewSlabs(s) /\ \A k \in Ks : s.raw[k] >= st.raw[k] \/ s.raw[k] >= Cfg.batch[k]
SlabsOk(s) ==
  /\ s.raw = st.raw
  /\ IF s.shift = st.shift THEN SameLimits(s) /\ \A c \in Cpus : SameCpu(s, c)
     ELSE (s.shift - st.shift \in {-1, 1}) /\ NewSlabs(s)
LimitOk(o, s) == SameLimits(s) /\ (\A c \in Cpus : SameCpu(s, c)) /\ s.climit = o.cpu
OpOk(o, e, s) ==
  /\ CASE o.op \in {"alloc", "free"} -> MissOk(o, s)
       [] o.op = "drain" -> DrainOk(o, e, s)
       [] o.op = "resize" -> ResizeOk(s)
       [] o.op = "shuffle" -> ShuffleOk(s)
       [] o.op = "trydrain" -> TryDrainOk(o, s)
       [] o.op = "maxcaps" -> MaxCapsOk(s)
       [] o.op = "slabs" -> SlabsOk(s)
       [] o.op = "limit" -> LimitOk(o, s)
  /\ o.op = "limit" \/ s.climit = st.climit

(* ------------------------------- events -------------------------------- *)
E == Trace[i]
\* Once operations have overlapped, which CPU has an object is not known; neither is it after that.
Merge(f) == [c \in 0..N |-> [k \in Ks |-> IF c = 0 THEN UNION {f[d][k] : d \in 0..N} ELSE {}]]
Busy == {t \in Ts : op[t] # None}

Call ==
  /\ E.e = "call" /\ op[E.t] = None
  /\ op' = [op EXCEPT ![E.t] = [op |-> E.op, k |-> E.k, id |-> E.id, cpu |-> E.cpu, rel |-> E.rel, fetched |-> 0, bytes |-> 0]]
  /\ LET ov == overlap \/ Busy # {}
         f == IF ov /\ ~overlap THEN Merge(fe) ELSE fe
         c == IF ov THEN 0 ELSE E.cpu
     IN /\ overlap' = ov
        /\ IF E.op = "free"
           THEN E.id \in user /\ user' = user \ {E.id} /\ fe' = [f EXCEPT ![c][E.k] = @ \cup {E.id}]
           ELSE user' = user /\ fe' = f
  /\ UNCHANGED <<st, back, used>>
Fetch ==
  /\ E.e = "fetch" /\ op[E.t].op = "alloc" /\ op[E.t].k = E.k
  /\ SetOf(E.x) \subseteq back[E.k] /\ Cardinality(SetOf(E.x)) = Len(E.x)
  /\ back' = [back EXCEPT ![E.k] = @ \ SetOf(E.x)]
  /\ fe' = [fe EXCEPT ![IF overlap THEN 0 ELSE op[E.t].cpu][E.k] = @ \cup SetOf(E.x)]
  /\ op' = [op EXCEPT ![E.t].fetched = @ + Len(E.x)]
  /\ UNCHANGED <<st, user, used, overlap>>
Rel ==
  /\ E.e = "rel" /\ op[E.t].op # "" /\ E.k \in Ks
  /\ Cardinality(SetOf(E.x)) = Len(E.x)
  /\ LET S == SetOf(E.x)
         C == IF overlap THEN {0} ELSE IF op[E.t].op \in {"alloc", "free", "drain"} THEN {op[E.t].cpu} ELSE Cpus
     IN /\ S \subseteq UNION {fe[c][E.k] : c \in C}
        /\ fe' = [c \in 0..N |-> IF c \in C THEN [fe[c] EXCEPT ![E.k] = @ \ S] ELSE fe[c]]
        /\ back' = [back EXCEPT ![E.k] = @ \cup S]
  /\ UNCHANGED <<st, user, op, used, overlap>>
Ret ==
  /\ E.e = "ret" /\ op[E.t].op = E.op
  /\ LET o == op[E.t]
         c == IF overlap THEN 0 ELSE o.cpu
     IN IF E.op = "alloc"
        THEN IF E.id = -2 THEN o.fetched = 0 /\ UNCHANGED <<fe, user>>
             ELSE /\ E.id \in fe[c][o.k]
                  /\ fe' = [fe EXCEPT ![c][o.k] = @ \ {E.id}]
                  /\ user' = user \cup {E.id}
        ELSE UNCHANGED <<fe, user>>
  /\ op' = [op EXCEPT ![E.t] = None]
  /\ E.q = (Busy = {E.t})
  /\ IF E.q
     THEN /\ st' = E.st
          /\ StateOk(E.st, fe')
          /\ overlap \/ OpOk(op[E.t], E, E.st)
          /\ used' = IF E.op = "trydrain"
                     THEN [d \in Cpus |-> IF st.cpu[d].pop THEN [bytes |-> st.cpu[d].used, miss |-> st.cpu[d].miss] ELSE used[d]]
                     ELSE used
     ELSE st' = st /\ used' = used
  /\ UNCHANGED <<back, overlap>>
\* Threads ran freely and have stopped.
Free ==
  /\ E.e = "free" /\ E.bad = 0
  /\ (\A c \in Cpus : CpuOk(E.st, c)) /\ Sums(E.st)
  /\ \A k \in Ks : E.held[k] + E.back[k] + E.st.tot[k] = Cfg.per
  /\ i = 2 \/ \A c \in Cpus : Emptied(E.st, c)
  /\ UNCHANGED <<st, fe, user, back, op, used, overlap>>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Call \/ Fetch \/ Rel \/ Ret \/ Free)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
