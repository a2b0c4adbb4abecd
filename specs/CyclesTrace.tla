----------------------------- MODULE CyclesTrace ----------------------------
(* Real Cycles32 objects under a mocked clock.  A tick number is written in  *)
(* base 2^16 as <<a, b, c>> (epoch, high half, low half of the 32-bit tick). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NS == 4
VARIABLES l, at               \* real tick at which each stamp was set; <<>> = unset
e == Trace[l]
B == 65536
\* x - y for x >= y, digitwise with borrow
Sub(x, y) == LET c0 == x[3] - y[3]  bc == IF c0 < 0 THEN 1 ELSE 0
                 b0 == x[2] - y[2] - bc  bb == IF b0 < 0 THEN 1 ELSE 0
             IN <<x[1] - y[1] - bb, b0 + bb * B, c0 + bc * B>>
Geq(x, y) == \/ x[1] > y[1] \/ (x[1] = y[1] /\ (x[2] > y[2] \/ (x[2] = y[2] /\ x[3] >= y[3])))
Dist(x, y) == IF Geq(x, y) THEN Sub(x, y) ELSE Sub(y, x)
Small(d, k) == d[1] = 0 /\ d[2] = 0 /\ d[3] <= k
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Init == l = 1 /\ at = [i \in 0 .. NS - 1 |-> <<>>]
Unset(i) == at[i] = <<>>
Fresh == IsOp("fresh") /\ at' = [at EXCEPT ![e.i] = <<>>]
Update == IsOp("update") /\ at' = [at EXCEPT ![e.i] = e.t] /\ e.set
Reset == IsOp("reset") /\ at' = [at EXCEPT ![e.i] = <<>>] /\ ~e.set
\* constructed from a raw value: as if set at that tick (the reserved 0 is unset)
Make == /\ IsOp("make")
        /\ at' = [at EXCEPT ![e.i] = IF e.t[2] = 0 /\ e.t[3] = 0 THEN <<>> ELSE e.t]
Age == /\ IsOp("age") /\ UNCHANGED at
       /\ e.set = ~Unset(e.i)
       /\ IF Unset(e.i) THEN e.inf
          ELSE LET d == Sub(e.t, at[e.i]) IN
               (d[1] = 0 /\ ~(d[2] = B - 1 /\ d[3] = B - 1)) =>   \* at most 2^32 - 2 ticks ago
                 /\ ~e.inf
                 /\ Small(Dist(e.age, d), 1)
                 \* exact unless the reserved tick is involved
                 /\ (<<at[e.i][2], at[e.i][3]>> # <<0, 0>> /\ <<e.t[2], e.t[3]>> # <<0, 0>>) => e.age = d
Cmp == /\ IsOp("cmp") /\ UNCHANGED at
       /\ (~Unset(e.i) /\ ~Unset(e.j)) =>
          LET x == at[e.i]  y == at[e.j]  d == Dist(x, y) IN
          (d[1] = 0 /\ d[2] < B \div 2 - 1) =>       \* less than half a period apart
             /\ Geq(x, y) => e.r
             /\ (~Geq(x, y) /\ ~(Small(d, 1) /\ x[2] = 0 /\ x[3] = 0)) => ~e.r
Next == Fresh \/ Update \/ Reset \/ Make \/ Age \/ Cmp
Spec == Init /\ [][Next]_<<l, at>>
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
