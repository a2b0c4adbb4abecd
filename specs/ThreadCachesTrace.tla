--------------------------- MODULE ThreadCachesTrace ---------------------------
(* Histories of the real caches of threads: after each operation, the bytes and the objects per class that all caches *)
(* hold.  How many objects a fetch brought is the only thing the model does not predict.                               *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
K == Trace[1]
TSize(c) == K.size[c]
TBatch(c) == K.batch[c]
TClasses == 1..Len(K.size)
T == INSTANCE ThreadCaches WITH Size <- TSize, Batch <- TBatch, Classes <- TClasses, Steal <- K.steal, MinC <- K.minc, MaxC <- K.maxc, MaxOver <- K.maxover, MaxLen <- K.maxlen
VARIABLES l, s, live
vars == <<l, s, live>>
e == Trace[l]
\* 99: the cache the main thread left behind while the program started, with what it holds
Old == [T!Blank EXCEPT !.max = K.steal, !.size = K.bytes, !.len = [c \in TClasses |-> K.count[c]]]
Begin == IF K.bytes = 0 THEN T!Start(K.total)
         ELSE [T!Start(K.total) EXCEPT !.order = <<99>>, !.nx = 99, !.h = (99 :> Old), !.un = K.total - K.steal]
Init == l = 2 /\ s = Begin /\ live = {}
RECURSIVE Sum(_, _, _)
Sum(st, hs, c) == IF hs = {} THEN 0 ELSE LET x == CHOOSE y \in hs : TRUE IN st.h[x].len[c] + Sum(st, hs \ {x}, c)
RECURSIVE Bytes(_, _)
Bytes(st, hs) == IF hs = {} THEN 0 ELSE LET x == CHOOSE y \in hs : TRUE IN st.h[x].size + Bytes(st, hs \ {x})
\* what is reported is what is held
Told(st) == /\ e.bytes = Bytes(st, T!Heaps(st)) /\ e.other = K.other
            /\ \A c \in TClasses : e.count[c] = Sum(st, T!Heaps(st), c)
With(t) == IF t \in T!Heaps(s) THEN s ELSE T!Born(s, t)
Goes(n) == Told(n) /\ s' = n
Alloc ==
  /\ e.op = "alloc"
  /\ LET b == With(e.t) IN
     IF b.h[e.t].len[e.c] > 0 THEN Goes(T!Pop(b, e.t, e.c))
     ELSE LET f == e.count[e.c] - Sum(b, T!Heaps(b), e.c) + 1 IN f >= 1 /\ f <= T!Want(b, e.t, e.c) /\ Goes(T!Fetch(b, e.t, e.c, f))
  /\ e.id > 0 /\ e.id \notin live /\ live' = live \cup {e.id}           \* nobody else has it
Free == e.op = "free" /\ Goes(T!Push(With(e.t), e.t, e.c)) /\ live' = live \ {e.id}
End == e.op = "end" /\ Goes(IF e.t \in T!Heaps(s) THEN T!Gone(s, e.t) ELSE s) /\ UNCHANGED live
Total == e.op = "total" /\ LET n == T!SetTotal(s, e.n) IN Goes(n) /\ e.back = n.ov /\ UNCHANGED live
\* several threads at once, each ending with its cache gone: nothing stays behind, no object is in two places
Stress == e.op = "stress" /\ s = Begin /\ e.twice = 0 /\ Told(s) /\ e.back = e.n /\ UNCHANGED live
          \* the old cache's budget may have been scaled down meanwhile: to nothing, after so many changes
          /\ s' = [T!SetTotal(s, e.n) EXCEPT !.h = [x \in DOMAIN s.h |-> [s.h[x] EXCEPT !.max = 0]], !.un = e.n]
\* every object cut from a span is with the program, in a cache or in the shared tiers
Sums == e.op = "sums" /\ UNCHANGED <<s, live>>
        /\ (\A c \in TClasses : e.made[c] = e.shared[c] + e.count[c] + e.used[c]) = TRUE
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Alloc \/ Free \/ End \/ Total \/ Stress \/ Sums)
Spec == Init /\ [][Next]_vars
Sound == T!Sound([s EXCEPT !.h = [x \in DOMAIN s.h |-> IF x = 99 THEN [s.h[x] EXCEPT !.size = T!Held(s, 99, TClasses)] ELSE s.h[x]]])
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
