----------------------------- MODULE ArenaTrace -----------------------------
(* Histories of the real arena: which block each request got (region, offset) and all statistics after it.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, live, objs, ofree, got, st, tot, regs, full
vars == <<l, live, objs, ofree, got, st, tot, regs, full>>
e == Trace[l]
Init == l = 2 /\ live = {} /\ objs = {} /\ ofree = {} /\ got = 0 /\ st = <<0, 0, 0, 0, 0, 0>> /\ tot = <<0, 0, 0>> /\ regs = <<>> /\ full = FALSE
Span == Trace[1].span
Disjoint(r, a, n) == \A b \in live : b[1] # r \/ a + n <= b[2] \/ b[2] + b[3] <= a \/ b[3] = 0 \/ n = 0
Sum(s) == s[1] + s[2] + s[3] + s[4]
Up(a, al) == ((a + al - 1) \div al) * al
\* Is there free space for the request, that is certainly on the list or in the current area?  (What is too small for
\* a list entry, or was left when the list was full, is given up.)
Room(n, al) ==
  \E b \in {x \in live : x[1] > 0} :
    LET r == regs[b[1]]
        s == Up(r[1] + b[2] + b[3], 8)
        at == Up(s, al)
        end == at + (IF n < Span THEN Span ELSE n)
    IN /\ end <= r[1] + r[2]
       /\ \A c \in live : c[1] # b[1] \/ r[1] + c[2] + c[3] <= r[1] + b[2] + b[3] \/ r[1] + c[2] >= end
Gap == e.s[1] - st[1] - e.n
\* a block carved from the arena
Carved ==
  /\ e.grown >= 0 /\ e.mis = 0 /\ (e.n > 0 => e.reg > 0 /\ e.off + e.n <= e.len /\ Disjoint(e.reg, e.off, e.n))
  /\ Sum(e.s) = got + e.grown
  /\ e.s[5] = st[5] + (IF e.grown > 0 THEN 1 ELSE 0)
  /\ Gap >= 0 /\ Gap < e.al /\ Gap <= e.off                       \* the gap in front counts as allocated
  /\ Disjoint(e.reg, e.off - Gap, Gap)
  /\ e.s[4] = st[4] /\ e.s[6] <= 100
  \* what is given up is at most a piece too small for a list entry, unless the list is full
  /\ e.s[3] >= st[3] /\ (st[6] < 100 => e.s[3] - st[3] < Span + 8)
  /\ (e.grown > 0 => e.grown >= e.n)
  /\ ((e.grown > 0 /\ ~full) => ~Room(e.n, e.al))                      \* the system is asked only when nothing else is left
Same == e.s = st
Alloc == /\ e.op = "alloc" /\ Carved = TRUE
         /\ live' = live \cup {<<e.reg, e.off - Gap, e.n + Gap>>} /\ got' = got + e.grown /\ UNCHANGED <<objs, ofree, tot>>
New ==
  LET b == <<e.reg, e.off - Gap, e.n + Gap>>
      o == <<e.o, e.reg, e.off>>
      mine == {x \in ofree : x[1] = e.o}
  IN /\ e.op = "new" /\ (e.mis = 0 /\ e.tot >= tot[e.o]) = TRUE
     /\ IF mine # {}
        THEN (o \in mine /\ Same /\ e.tot = tot[e.o]) = TRUE /\ ofree' = ofree \ {o} /\ got' = got /\ live' = live
        ELSE (Carved /\ e.tot = tot[e.o] + 1) = TRUE /\ live' = live \cup {b} /\ got' = got + e.grown /\ ofree' = ofree
     /\ objs' = objs \cup {o} /\ tot' = [tot EXCEPT ![e.o] = e.tot]
     /\ (e.use = Cardinality({x \in objs' : x[1] = e.o})) = TRUE
Delete ==
  LET o == <<e.o, e.reg, e.off>> IN
  /\ e.op = "delete" /\ (e.ok /\ o \in objs /\ Same /\ e.tot = tot[e.o]) = TRUE
  /\ objs' = objs \ {o} /\ ofree' = ofree \cup {o}
  /\ (e.use = Cardinality({x \in objs' : x[1] = e.o})) = TRUE
  /\ UNCHANGED <<live, got, tot>>
Upd == /\ e.op = "upd" /\ (e.s = <<st[1] + e.da, st[2], st[3], st[4] + e.dn, st[5], st[6]>>) = TRUE
       /\ UNCHANGED <<live, objs, ofree, got, tot>>
Par == /\ e.op = "par" /\ (e.apart /\ e.ok /\ e.more >= 0 /\ e.grown >= 0 /\ (e.grown > 0 <=> e.more > 0)
                           /\ Sum(e.s) = got + e.grown /\ e.s[5] = st[5] + e.more /\ e.s[1] >= st[1] + e.n
                           /\ e.s[1] <= st[1] + e.n + (31 * e.cnt) /\ e.s[4] = st[4] /\ e.s[6] <= 100) = TRUE
       /\ got' = got + e.grown /\ UNCHANGED <<live, objs, ofree, tot>>
End == e.op = "end" /\ (e.ok /\ Same) = TRUE /\ UNCHANGED <<live, objs, ofree, got, tot>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ st' = e.s
  /\ full' = (full \/ st[6] >= 100 \/ e.s[6] >= 100 \/ e.op = "par")
  /\ regs' = (IF e.op \in {"alloc", "new"} /\ e.grown > 0 THEN Append(regs, <<e.base, e.len>>) ELSE regs)
  /\ (Alloc \/ New \/ Delete \/ Upd \/ Par \/ End)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
