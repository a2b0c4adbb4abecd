------------------------------ MODULE Sampler ------------------------------
(* One thread's sampler.  The bytes a thread allocates (each request counts one more than its size, so that empty   *)
(* requests count too) form a stream in which points are picked; a request that contains the point is sampled.      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Sizes, Intervals, MaxPick, Quiet, MaxAllocs
VARIABLES ready,      \* the sampler has been set up
          until,      \* bytes that can be allocated before the point
          step,       \* interval in force when the point was picked (nothing counts as 0)
          interval,   \* interval in force
          picked,     \* the point as it was picked
          n, bytes,   \* requests made and the bytes of the stream they took
          past,       \* stream position of the last pick
          acc,        \* what all samples so far account for
          last        \* the last request: <<size, until before, step before, sampled, weight>>
vars == <<ready, until, step, interval, picked, n, bytes, past, acc, last>>
MCIntervals == {-3, 0, 1, 4}
Points(i) == IF i <= 0 THEN {Quiet} ELSE IF i = 1 THEN {0} ELSE 0..MaxPick
Pos(i) == IF i > 0 THEN i ELSE 0
Init == ready = FALSE /\ until = 0 /\ step = 0 /\ interval \in Intervals /\ picked = 0 /\ n = 0 /\ bytes = 0 /\ past = 0 /\ acc = 0 /\ last = <<>>
SetInterval(i) == i # interval /\ interval' = i /\ last' = <<>> /\ UNCHANGED <<ready, until, step, picked, n, bytes, past, acc>>
\* the request k when the point is b bytes away (it was picked under the interval st at position p)
Judge(k, b, st, p, pk) ==
  IF b >= k + 1
  THEN /\ until' = b - (k + 1) /\ step' = st /\ past' = p /\ picked' = pk /\ acc' = acc
       /\ last' = <<k, b, st, FALSE, 0>>
  ELSE LET w == st - ((b - (k + 1)) + 1) IN
       /\ \E q \in Points(interval) : until' = q /\ picked' = q
       /\ step' = Pos(interval) /\ past' = bytes'
       /\ acc' = acc + (pk + 1 + w - st)
       /\ last' = <<k, b, st, interval > 0 /\ w > 0, IF interval <= 0 THEN 0 ELSE w>>
Alloc(k) ==
  /\ n < MaxAllocs /\ n' = n + 1 /\ bytes' = bytes + k + 1 /\ UNCHANGED interval
  /\ IF ready THEN Judge(k, until, step, past, picked) /\ UNCHANGED ready
     ELSE /\ ready' = TRUE
          /\ \E q \in Points(interval) : Judge(k, q, Pos(interval), bytes, q)
Next == (\E k \in Sizes : Alloc(k)) \/ (\E i \in Intervals : SetInterval(i))
Spec == Init /\ [][Next]_vars
\* every byte of the stream is accounted for by a sample or lies between the last pick and now
Accounted == bytes = acc + (IF ready THEN picked - until ELSE 0)
NonNeg == until >= 0 /\ step >= 0 /\ (last # <<>> => last[5] >= 0)
Rule == last # <<>> =>
  /\ (last[4] => last[2] <= last[1] /\ last[5] = last[3] + last[1] - last[2])
  /\ (interval <= 0 => ~last[4])
  /\ ((last[3] = 1 /\ interval = 1) => last[4] /\ last[5] = 1 + last[1])
Inv == Accounted /\ NonNeg /\ Rule
=============================================================================
