----------------------------- MODULE ProfilesTrace -----------------------------
(* Every profile the real allocator gives, row by row, against the blocks known to be sampled.                           *)
EXTENDS Json, IOUtils, TLC, Integers, Sequences, FiniteSets
INSTANCE Stats
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* obj: sampled block (handle) -> what is known of it; size: bytes they stand for; snap: rows of the largest heap; at: when it was
VARIABLES l, obj, est, live, size, peak, snap, frac, open, base, at
vars == <<l, obj, est, live, size, peak, snap, frac, open, base, at>>
e == Trace[l]
ToSet(q) == {q[i] : i \in 1..Len(q)}
Once(q) == Cardinality({q[i][1] : i \in 1..Len(q)}) = Len(q)
RECURSIVE Mul(_, _)
Mul(p, k) == IF k = 0 THEN <<0, 0>> ELSE Add2(p, Mul(p, k - 1))
\* as a row of a profile: whole objects, as many as come nearest to the bytes it stands for
Count(x) == IF x.cap = 0 THEN 1 ELSE (x.rnd + x.cap \div 2) \div x.cap
RECURSIVE Times(_, _)
Times(n, k) == IF k = 0 THEN <<0, 0>> ELSE LET h == Times(n, k \div 2) IN Add2(Add2(h, h), IF k % 2 = 1 THEN Fig(n) ELSE <<0, 0>>)
Row(x) == <<x.h, Count(x), Times(x.cap, Count(x)), x.req, x.al, x.cap, x.type, x.ret, x.hint, x.cold, x.stack, x.when, x.span>>
Grown(s, p, fr) == fr > 0 /\ ~Leq(Mul(s, 4), Mul(p, fr))
\* what the hook was told agrees with what was asked; the estimate follows from the weight
Sound(x) == /\ x.told = <<x.req, x.al, x.hint>> /\ x.from <= x.when /\ x.when <= x.to
            /\ (x.cap >= x.req) /\ x.w > 0 /\ (x.rnd = x.est \/ x.rnd = x.est + 1)
LiveRows(lv, o) == {o[h] : h \in lv} \cup base
Init == /\ l = 2 /\ obj = [h \in {} |-> 0] /\ est = [h \in {} |-> 0] /\ live = {} /\ frac = 0 /\ open = [k \in {} |-> {}] /\ at = <<0, 0>>
        /\ size = Trace[1].size /\ peak = Trace[1].peak /\ snap = ToSet(Trace[1].snap) /\ base = ToSet(Trace[1].live)
Alloc == /\ e.op = "alloc"
         /\ (e.here /\ Sound(e.x) /\ e.x.h \notin DOMAIN obj) = TRUE
         /\ obj' = (e.x.h :> Row(e.x)) @@ obj /\ est' = (e.x.h :> e.x.est) @@ est /\ live' = live \cup {e.x.h}
         /\ e.size = Add2(size, Fig(e.x.est))
         /\ open' = [k \in DOMAIN open |-> <<open[k][1], open[k][2] \cup {Row(e.x)}>>]
         /\ (IF Grown(e.size, peak, frac)
               THEN e.peak = e.size /\ snap' = LiveRows(live', obj') /\ at' = <<e.x.from, e.x.to>>
               ELSE e.peak = peak /\ UNCHANGED <<snap, at>>)
         /\ UNCHANGED <<frac, base>>
Free == /\ e.op = "free" /\ e.h \in live /\ live' = live \ {e.h} /\ e.size = Sub2(size, Fig(est[e.h]))
        /\ e.peak = peak /\ UNCHANGED <<obj, est, snap, frac, open, base, at>>
Plain == e.op = "plain" /\ e.size = size /\ e.peak = peak /\ UNCHANGED <<obj, est, live, snap, frac, open, base, at>>
Frac == e.op = "frac" /\ e.size = size /\ e.peak = peak /\ frac' = e.x /\ UNCHANGED <<obj, est, live, snap, open, base, at>>
Heap == e.op = "heap" /\ (Once(e.rows) /\ ToSet(e.rows) = LiveRows(live, obj) /\ e.from <= e.start /\ e.start <= e.to) = TRUE
        /\ e.size = size /\ e.peak = peak /\ UNCHANGED <<obj, est, live, snap, frac, open, base, at>>
Peak == e.op = "peak" /\ (Once(e.rows) /\ ToSet(e.rows) = snap /\ (at # <<0, 0>> => at[1] <= e.start /\ e.start <= at[2])) = TRUE
        /\ e.size = size /\ e.peak = peak /\ UNCHANGED <<obj, est, live, snap, frac, open, base, at>>
Open == e.op = "open" /\ e.k \notin DOMAIN open /\ open' = (e.k :> <<<<e.from, e.to>>, {}>>) @@ open
        /\ e.size = size /\ e.peak = peak /\ UNCHANGED <<obj, est, live, snap, frac, base, at>>
Close == /\ e.op \in {"close", "drop"} /\ e.k \in DOMAIN open
         /\ (e.op = "close" =>
               LET o == open[e.k] IN
               /\ Once(e.rows) /\ ToSet(e.rows) = o[2]
               /\ o[1][1] <= e.start /\ e.start <= o[1][2]
               /\ e.from - o[1][2] - 2 <= e.dur /\ e.dur <= e.to - o[1][1] + 2) = TRUE
         /\ open' = [k \in DOMAIN open \ {e.k} |-> open[k]]
         /\ e.size = size /\ e.peak = peak /\ UNCHANGED <<obj, est, live, snap, frac, base, at>>
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN <<0, 0>> ELSE Add2(Fig(Head(q).est), Sum(Tail(q)))
Burst ==
  /\ e.op = "burst"
  /\ LET new == [h \in {x.h : x \in ToSet(e.born)} |-> Row(CHOOSE x \in ToSet(e.born) : x.h = h)] IN
     /\ ((\A x \in ToSet(e.born) : Sound(x)) /\ Cardinality(DOMAIN new) = Len(e.born) /\ DOMAIN new \cap DOMAIN obj = {}) = TRUE
     /\ ToSet(e.gone) \subseteq live \cup DOMAIN new
     /\ obj' = new @@ obj /\ est' = [h \in DOMAIN new |-> (CHOOSE x \in ToSet(e.born) : x.h = h).est] @@ est
     /\ live' = (live \cup DOMAIN new) \ ToSet(e.gone)
     /\ open' = [k \in DOMAIN open |-> <<open[k][1], open[k][2] \cup {new[h] : h \in DOMAIN new}>>]
     \* a profile taken meanwhile: what was live throughout, perhaps what came or went, nothing else
     /\ (Once(e.during) /\ LiveRows(live \ ToSet(e.gone), obj) \subseteq ToSet(e.during)
           /\ ToSet(e.during) \subseteq LiveRows(live, obj) \cup {new[h] : h \in DOMAIN new}) = TRUE
     \* the peak: as it was, or of this time
     /\ Once(e.snap) /\ snap' = ToSet(e.snap)
     /\ LET same == ToSet(e.snap) = snap /\ e.peak = peak IN
        /\ at' = IF same THEN at ELSE <<e.from, e.to>>
        /\ (same \/ (/\ frac > 0 /\ e.from <= e.start /\ e.start <= e.to
                     /\ (frac >= 4 => Leq(peak, e.peak))
                     /\ ToSet(e.snap) \subseteq LiveRows(live, obj) \cup {new[h] : h \in DOMAIN new}
                     /\ LiveRows(live \ ToSet(e.gone), obj) \subseteq ToSet(e.snap)
                     /\ (~e.frees /\ e.peak = e.size => ToSet(e.snap) = LiveRows(live', obj')))) = TRUE
     /\ (~e.frees => ~Grown(e.size, e.peak, frac)) = TRUE
     /\ Add2(e.size, Total([i \in 1..Len(e.gone) |-> Fig(est'[e.gone[i]])])) = Add2(size, Sum(e.born))
  /\ UNCHANGED <<frac, base>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ size' = e.size /\ peak' = e.peak
  /\ (Alloc \/ Free \/ Plain \/ Frac \/ Heap \/ Peak \/ Open \/ Close \/ Burst)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
