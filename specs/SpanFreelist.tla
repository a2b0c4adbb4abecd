---------------------------- MODULE SpanFreelist ----------------------------
(* The free list of one span: a small array in the descriptor and, beyond   *)
(* it, arrays written into the free objects themselves.  An object that is  *)
(* handed out loses its contents.  Checked against the ideal: the set of    *)
(* objects nobody holds.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS K, C, E, N      \* objects, slots in the descriptor, indices a free object can embed, largest batch
VARIABLES cache, head, embed, mem, out
vars == <<cache, head, embed, mem, out>>
Obj == 0 .. K - 1
End == 99
Junk == 77
Min2(a, b) == IF a < b THEN a ELSE b
Wiped == [i \in 0 .. E |-> Junk]
\* --- BuildFreelist: the first r objects go to the caller, the next ones to the descriptor, hosts from the front, embedded from the back
RECURSIVE Build(_, _, _, _, _)
Build(idx, end, h, em, m) ==
  IF idx >= end THEN [head |-> h, embed |-> em, mem |-> m]
  ELSE IF h # End /\ em # E THEN Build(idx, end - 1, h, em + 1, [m EXCEPT ![h][em + 1] = end - 1])
  ELSE Build(idx + 1, end, idx, 0, [m EXCEPT ![idx][0] = h])
Init == \E r \in 1 .. Min2(N, K) :
  LET c == Min2(C, K - r)
      b == Build(r + c, K, End, 0, [o \in Obj |-> Wiped]) IN
  /\ cache = [i \in 1 .. c |-> r + i - 1] /\ head = b.head /\ embed = b.embed /\ mem = b.mem /\ out = 0 .. r - 1
\* --- PopBatch
RECURSIVE PopHost(_, _, _, _, _)
PopHost(res, n, h, em, m) ==
  IF Len(res) = n \/ h = End THEN [res |-> res, head |-> h, embed |-> em]
  ELSE LET it == IF Len(res) + em > n THEN n - Len(res) ELSE em
           r1 == res \o [i \in 1 .. it |-> m[h][em - i + 1]] IN
       IF Len(r1) = n THEN [res |-> r1, head |-> h, embed |-> em - it]
       ELSE PopHost(Append(r1, h), n, m[h][0], E, m)
PopResult(n) ==
  LET k == Min2(Len(cache), n)
      fromc == [i \in 1 .. k |-> cache[Len(cache) - i + 1]] IN
  PopHost(fromc, n, head, embed, mem)
Rng(s) == { s[i] : i \in DOMAIN s }
Pop(n) == /\ out # Obj
          /\ LET p == PopResult(n) IN
             /\ cache' = SubSeq(cache, 1, Len(cache) - Min2(Len(cache), n))
             /\ head' = p.head /\ embed' = p.embed
             /\ out' = out \cup Rng(p.res)
             /\ mem' = [o \in Obj |-> IF o \in Rng(p.res) THEN Wiped ELSE mem[o]]   \* the holder writes over it
             /\ Assert(Len(p.res) >= 1 /\ Len(p.res) = Min2(n, K - Cardinality(out)), "short pop")
             /\ Assert(Cardinality(Rng(p.res)) = Len(p.res) /\ Rng(p.res) \cap out = {}, "object handed out twice")
\* --- PushBatch (the span itself goes away when the last object comes back)
RECURSIVE PushHost(_, _, _, _)
PushHost(b, h, em, m) ==
  IF b = <<>> THEN [head |-> h, embed |-> em, mem |-> m]
  ELSE IF em # E THEN PushHost(SubSeq(b, 2, Len(b)), h, em + 1, [m EXCEPT ![h][em + 1] = b[1]])
  ELSE PushHost(SubSeq(b, 2, Len(b)), b[1], 0, [m EXCEPT ![b[1]][0] = h])
Push(b) ==
  /\ Len(b) < Cardinality(out)
  /\ LET k == Min2(C - Len(cache), Len(b))
         r == SubSeq(b, k + 1, Len(b)) IN
     /\ cache' = cache \o SubSeq(b, 1, k)
     /\ LET p == IF r = <<>> THEN [head |-> head, embed |-> embed, mem |-> mem]
                 ELSE IF head = End THEN PushHost(SubSeq(r, 2, Len(r)), r[1], 0, [mem EXCEPT ![r[1]][0] = End])
                 ELSE PushHost(r, head, embed, mem) IN
        head' = p.head /\ embed' = p.embed /\ mem' = p.mem
  /\ out' = out \ Rng(b)
Batches == UNION { { f \in [1 .. n -> out] : Cardinality(Rng(f)) = n } : n \in 1 .. Min2(N, Cardinality(out)) }
Next == (\E n \in 1 .. N : Pop(n)) \/ (\E b \in Batches : Push(b))
Spec == Init /\ [][Next]_vars
\* --- what the structure holds
RECURSIVE Chain(_, _, _)
Chain(h, em, fuel) == IF h = End THEN <<>> ELSE IF h \notin Obj \/ fuel = 0 THEN <<Junk>>
                      ELSE <<h>> \o [i \in 1 .. em |-> mem[h][i]] \o Chain(mem[h][0], E, fuel - 1)
Content == cache \o Chain(head, embed, K)
Exact == Rng(Content) = Obj \ out /\ Len(Content) = K - Cardinality(out)
Live == out # {}
=============================================================================
