------------------------- MODULE RangeTrackerTrace --------------------------
EXTENDS RangeTracker, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1

(* recorded bits: sequence of <<start, len>> runs *)
ToSet(rs) == UNION { Ival(rs[k][1], rs[k][2]) : k \in DOMAIN rs }
Obs == /\ ToSet(e.bits) = B'
       /\ e.used = Cardinality(B') /\ e.longest = Longest(Clear(B', N')) /\ e.allocs = live'

New == IsOp("new") /\ N' = e.size /\ B' = {} /\ live' = 0 /\ Obs
TFind == IsOp("find") /\ FindAndMark(e.n, e.i) /\ Obs
TMark == IsOp("mark") /\ Mark(e.i, e.n) /\ Obs
TUnmark == IsOp("unmark") /\ Unmark(e.i, e.n) /\ Obs
TClear == IsOp("clear") /\ ClearAll /\ Obs

(* bare bitmap operations: no allocation bookkeeping *)
BObs == ToSet(e.bits) = B' /\ e.cnt = Cardinality(B') /\ e.zero = (B' = {})
Keep == UNCHANGED <<N, live>>
BNew == IsOp("bnew") /\ N' = e.size /\ B' = ToSet(e.set) /\ live' = 0 /\ BObs
BSetBit == IsOp("setbit") /\ B' = B \cup {e.i} /\ e.r = (e.i \in B) /\ Keep /\ BObs
BClearBit == IsOp("clearbit") /\ B' = B \ {e.i} /\ e.r = (e.i \in B) /\ Keep /\ BObs
BSetRange == IsOp("setrange") /\ B' = B \cup Ival(e.i, e.n) /\ Keep /\ BObs
BClearRange == IsOp("clearrange") /\ B' = B \ Ival(e.i, e.n) /\ Keep /\ BObs
BLow == IsOp("clearlowest") /\ B' = (IF B = {} THEN {} ELSE B \ {MinOf(B)}) /\ Keep /\ BObs
(* batch pop: the lowest min(limit, |B|) set bits, in order *)
BPop == /\ IsOp("pop")
        /\ LET got == { e.got[k] : k \in DOMAIN e.got } IN
             /\ Len(e.got) = (IF Cardinality(B) < e.limit THEN Cardinality(B) ELSE e.limit)
             /\ e.r = Len(e.got) /\ got \subseteq B /\ Cardinality(got) = Len(e.got)
             /\ \A k \in 1 .. Len(e.got) - 1 : e.got[k] < e.got[k + 1]
             /\ \A x \in got, y \in B \ got : x < y
             /\ B' = B \ got
        /\ Keep /\ BObs
BBin == /\ IsOp("binop")
        /\ LET o == ToSet(e.other) IN
             B' = CASE e.k = "and" -> B \cap o [] e.k = "or" -> B \cup o
                    [] e.k = "xor" -> (B \ o) \cup (o \ B) [] e.k = "not" -> (0 .. N - 1) \ B
        /\ Keep /\ BObs
(* destination bits [d, d+n) := source bits [s, s+n) *)
BCopy == /\ IsOp("copy")
         /\ LET o == ToSet(e.src) IN
              B' = (B \ Ival(e.d, e.n)) \cup { e.d + (x - e.s) : x \in { y \in o : y >= e.s /\ y < e.s + e.n } }
         /\ Keep /\ BObs
(* scaling of src_len bits to M bits *)
BScale == /\ IsOp("scale") /\ UNCHANGED vars
          /\ LET sp == IF e.len >= e.m THEN e.len \div e.m ELSE 1
                 dp == IF e.m >= e.len THEN e.m \div e.len ELSE 1
                 need == IF e.all THEN sp ELSE 1
             IN ToSet(e.res) = { d \in 0 .. e.m - 1 : Count(B, (d \div dp) * sp, sp) >= need }
(* every query at every position *)
BSweep == /\ IsOp("sweep") /\ UNCHANGED vars
          /\ LET B0 == B n == N IN
             \A i \in 0 .. n - 1 :
               LET in == i \in B0 fc == e.fc[i + 1] IN
               /\ e.get[i + 1] = (IF in THEN 1 ELSE 0)
               /\ e.fs[i + 1] = (IF in THEN i ELSE IF i = n - 1 THEN n ELSE e.fs[i + 2])
               /\ fc = (IF ~in THEN i ELSE IF i = n - 1 THEN n ELSE e.fc[i + 2])
               /\ e.fsb[i + 1] = (IF in THEN i ELSE IF i = 0 THEN -1 ELSE e.fsb[i])
               /\ e.fcb[i + 1] = (IF ~in THEN i ELSE IF i = 0 THEN -1 ELSE e.fcb[i])
               /\ e.nfi[i + 1] = (IF fc = n THEN -1 ELSE fc)
               /\ e.nfl[i + 1] = (IF fc = n THEN 0 ELSE e.fs[fc + 1] - fc)
          /\ \A k \in DOMAIN e.counts : e.counts[k][3] = Count(B, e.counts[k][1], e.counts[k][2])
          /\ Len(e.fs) = N /\ e.size = N
          /\ e.nfend = FALSE

TInit == N = 1 /\ B = {} /\ live = 0 /\ l = 1
TNext == \/ New \/ TFind \/ TMark \/ TUnmark \/ TClear
         \/ BNew \/ BSetBit \/ BClearBit \/ BSetRange \/ BClearRange \/ BLow \/ BPop \/ BBin \/ BCopy
         \/ BScale \/ BSweep
TSpec == TInit /\ [][TNext]_<<vars, l>>
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
