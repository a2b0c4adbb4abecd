---------------------------- MODULE GuardedTrace ----------------------------
(* Histories of the real guarded page allocator, by itself and behind malloc with its signal handler.               *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, slot, used, high, made, touched, nosl, filt, large
vars == <<l, slot, used, high, made, touched, nosl, filt, large>>
e == Trace[l]
T == Trace[1].t
P == Trace[1].p
Most == Trace[1].max
Whole == Trace[1].whole
Magic == 32
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Page(s) == (2 * s + 1) * P
SlotAt(x) == (x \div P) \div 2
OnSlot(x) == x >= 0 /\ x < (2 * T + 1) * P /\ (x \div P) % 2 = 1
CeilPow2(n) == IF n <= 1 THEN 1 ELSE IF n <= 2 THEN 2 ELSE IF n <= 4 THEN 4 ELSE IF n <= 8 THEN 8 ELSE 16
Align(n, a) == Max2(a, Min2(CeilPow2(n), 16))
Start(s, n, a) == IF s % 2 = 1 \/ n = 0 THEN Page(s) ELSE Page(s) + (((P - n) \div Align(n, a)) * Align(n, a))
Nearest(x) == LET pg == x \div P IN
              IF pg % 2 = 1 THEN pg \div 2
              ELSE IF pg = 0 THEN 0 ELSE IF pg = 2 * T THEN T - 1
              ELSE IF 2 * (x % P) < P THEN (pg \div 2) - 1 ELSE pg \div 2
None == [ever |-> FALSE, live |-> FALSE, start |-> 0, n |-> 0, id |-> 0, freed |-> FALSE]
New(x, n, id) == [ever |-> TRUE, live |-> TRUE, start |-> x, n |-> n, id |-> id, freed |-> FALSE]
Class(x) == LET d == slot[Nearest(x)] IN
            IF ~d.ever THEN "unknown" ELSE IF d.freed THEN "uaf" ELSE IF x < d.start THEN "under" ELSE IF x >= d.start + d.n THEN "over" ELSE "unknown"
Readable(x) == OnSlot(x) /\ slot[SlotAt(x)].live /\ slot[SlotAt(x)].n > 0
\* what the allocator says about itself: made, in use, most in use, pages ever used, the rest, skipped, failed
Said(u, h, m, t, ns, fi, la) == e.s = <<m, u, h, t, T - u, ns, fi, la, 0>> /\ e.avail = Most - u
Init == /\ l = 2
        /\ Trace[1].quiet /\ Trace[1].odd /\ OnSlot(Trace[1].x) /\ Trace[1].x = Start(SlotAt(Trace[1].x), 1, IF Whole THEN 16 ELSE 1)
        /\ slot = [[s \in 0..(T - 1) |-> None] EXCEPT ![SlotAt(Trace[1].x)] = New(Trace[1].x, 1, 1)]
        /\ used = 1 /\ high = 1 /\ made = 1 /\ touched = 1 /\ nosl = Trace[1].s[6] /\ filt = Trace[1].s[7] /\ large = Trace[1].s[8]   \* (before the first block)
        /\ Trace[1].s = <<1, 1, 1, 1, T - 1, nosl, filt, large, 0>> /\ Trace[1].avail = Most - 1
\* a block is given: its own free page, at the right place
Given(x, n, a, id) ==
  /\ (OnSlot(x) /\ ~slot[SlotAt(x)].live /\ used < Most /\ x = Start(SlotAt(x), n, a)) = TRUE
  /\ slot' = [slot EXCEPT ![SlotAt(x)] = New(x, n, id)]
  /\ used' = used + 1 /\ high' = Max2(high, used + 1) /\ made' = made + 1 /\ touched' = touched + (IF slot[SlotAt(x)].ever THEN 0 ELSE 1)
  /\ Said(used', high', made', touched', nosl, filt, large) = TRUE
  /\ UNCHANGED <<nosl, filt, large>>
Full == /\ used = Most /\ nosl' = nosl + 1 /\ Said(used, high, made, touched, nosl + 1, filt, large) = TRUE
        /\ UNCHANGED <<slot, used, high, made, touched, filt, large>>
Alloc == /\ e.op = "alloc" /\ (e.zero /\ e.at /\ e.size = e.n /\ e.in = e.n) = TRUE
         /\ IF e.x >= 0 THEN Given(e.x, e.n, e.al, e.id) /\ (Whole \/ e.st = 10) = TRUE
            ELSE Full /\ (Whole \/ e.st = -5) = TRUE
Free == /\ e.op = "free" /\ (e.ok /\ OnSlot(e.x) /\ slot[SlotAt(e.x)].live /\ slot[SlotAt(e.x)].start = e.x) = TRUE
        /\ slot' = [slot EXCEPT ![SlotAt(e.x)] = [@ EXCEPT !.live = FALSE, !.freed = TRUE]]
        /\ used' = used - 1 /\ Said(used - 1, high, made, touched, nosl, filt, large) = TRUE
        /\ UNCHANGED <<high, made, touched, nosl, filt, large>>
Same == UNCHANGED <<slot, used, high, made, touched, nosl, filt, large>>
Probe == e.op = "probe" /\ (e.r <=> Readable(e.x)) /\ Same
Ask == LET d == slot[Nearest(e.x)] IN
       /\ e.op = "ask"
       /\ (/\ e.ty = Class(e.x) /\ e.size = d.n
           /\ (d.ever => e.off = e.x - d.start /\ (e.id = -1 \/ e.id = d.id) /\ e.was /\ e.del = d.freed /\ (e.at <=> e.off = 0))
           /\ (~d.ever => ~e.was /\ ~e.at)) = TRUE
       /\ Same
\* something wrong was done in a copy of the program: how that was reported
Named(k) == IF ~Whole THEN e.kind = k
            ELSE IF k \in {"uaf", "over", "under"} THEN e.kind = (k \o (IF e.wr = 1 THEN "_write" ELSE "_read")) ELSE e.kind = k
\* (when the nearest block cannot be blamed nothing is said)
Blamed(x, k, d) == /\ e.rc = 1 /\ e.sig = 11
                   /\ IF k = "unknown" THEN e.kind = (IF Whole THEN "none" ELSE "unknown") ELSE Named(k)
                   /\ (Whole /\ k # "unknown" => e.len = d.n /\ e.off = x - d.start)
                   /\ (~Whole => e.off = x /\ (d.ever => e.id = d.id))
Quiet == e.rc = 0 /\ e.kind = "none"
Value(s) == (205 * (s \div 2)) % 256
Bad == LET d == slot[SlotAt(e.b)] s == SlotAt(e.b) IN
  /\ e.op = "bad"
  /\ (CASE e.what = "touch" -> IF Readable(e.x) THEN Quiet ELSE Blamed(e.x, Class(e.x), slot[Nearest(e.x)])
        [] e.what = "double" -> Blamed(e.b, "double_guarded", d)
        [] e.what = "interior" -> IF d.n = 0 /\ e.d = 0 THEN Quiet ELSE e.rc = 1 /\ e.kind = "misaligned"
        [] e.what = "over" ->
             IF s % 2 = 0 /\ d.n > 0 /\ e.d < Magic /\ e.val # Value(s) THEN Blamed(e.b, "over_free", d) ELSE Quiet) = TRUE
  /\ Same
\* whether a sample is guarded
Rated == LET ratio == (e.tot * 10) \div e.succ IN e.gi * 10 > ratio * e.pi
Covered == \E s \in 0..(T - 1) : slot[s].live /\ slot[s].id = e.id
Try ==
  /\ e.op = "try" /\ (e.succ = made /\ (e.x >= 0 <=> e.st = 10)) = TRUE
  /\ IF e.np > 1 THEN (e.st = -1 /\ Said(used, high, made, touched, nosl, filt, large + 1)) = TRUE /\ large' = large + 1 /\ UNCHANGED <<slot, used, high, made, touched, nosl, filt>>
     ELSE IF e.gi < 0 THEN (e.st = -2 /\ Said(used, high, made, touched, nosl, filt, large)) = TRUE /\ Same
     ELSE IF e.gi > 0 /\ Rated THEN (e.st = -3 /\ Said(used, high, made, touched, nosl, filt, large)) = TRUE /\ Same
     ELSE IF e.st = -7 THEN (e.gi > 0 /\ Said(used, high, made, touched, nosl, filt + 1, large)) = TRUE /\ filt' = filt + 1 /\ UNCHANGED <<slot, used, high, made, touched, nosl, large>>
     \* a site that is covered is passed over when half of the pool is in use
     ELSE /\ ~(e.gi > 0 /\ Covered /\ 2 * used >= Most)
          /\ IF e.x >= 0 THEN Given(e.x, e.n, 8, e.id) ELSE e.st = -5 /\ Full
\* several threads at once, from an empty pool to an empty pool
Par == /\ e.op = "par" /\ (e.bad = 0 /\ e.over = 0 /\ used = 0 /\ e.s[1] = made + e.got /\ e.s[2] = 0 /\ e.s[3] >= high /\ e.s[3] <= Most /\ e.avail = Most
                           /\ e.s[4] >= touched /\ e.s[4] <= T /\ e.s[5] = T /\ e.s[9] = 0) = TRUE
       /\ Same
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Alloc \/ Free \/ Probe \/ Ask \/ Bad \/ Try \/ Par)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
