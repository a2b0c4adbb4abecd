-------------------------- MODULE SizeClassesTrace --------------------------
(* The real tables, the maps built from them (complete, run-length encoded) and the sizes the running      *)
(* allocator predicts, returns and reports, against SizeClasses.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
P == Trace[1]
INSTANCE SizeClasses WITH page <- P.page, maxsize <- P.max, hugepages <- P.hugepages, nb <- P.nb,
                          large <- 1024, fine <- 8, coarse <- 128, bits <- 192
VARIABLES l, desc, cls, sizes       \* last description installed (<<>>: unknown), class rows, ascending sizes
vars == <<l, desc, cls, sizes>>
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Init == l = 1 /\ desc = <<>> /\ cls = <<>> /\ sizes = <<>>
TParams == /\ IsOp("params") /\ l = 1 /\ UNCHANGED <<desc, cls, sizes>>
           /\ P.parts * P.nb = P.nc /\ P.max % P.page = 0
TTable == /\ IsOp("table") /\ e.ok = Valid(e.rows)
          /\ (e.name # "mutated" => e.ok)
          /\ desc' = (IF e.ok THEN e.rows ELSE desc) /\ UNCHANGED <<cls, sizes>>
\* every class of every region is the described one (unused ones empty)
Row(c) == LET i == (c % P.nb) + 1 IN
          IF i <= Len(desc) THEN <<desc[i][1], desc[i][2] \div P.page, desc[i][3]>> ELSE <<0, 0, 0>>
TClasses ==
  /\ IsOp("classes")
  /\ Len(e.rows) = P.nc
  /\ \A c \in 0 .. P.nc - 1 :
       LET r == e.rows[c + 1] IN
       /\ (desc # <<>> => <<r[1], r[2], r[3]>> = Row(c))
       /\ <<r[1], r[2], r[3]>> = LET b == e.rows[(c % P.nb) + 1] IN <<b[1], b[2], b[3]>>
       \* the range of sizes of the class
       /\ IF r[1] = 0 THEN r[4] = 0 /\ r[5] = 0 ELSE r[5] = r[1] /\ r[4] = e.rows[c][1] + 1
  /\ LET base == SelectSeq([i \in 1 .. P.nb |-> e.rows[i][1]], LAMBDA s : s > 0) IN
     /\ sizes' = base /\ Len(base) >= 1 /\ base[Len(base)] = P.max
     /\ \A i \in 1 .. Len(base) - 1 : base[i] < base[i + 1]
     /\ e.cold = (IF P.xstart < 0 THEN <<>> ELSE [i \in 1 .. Len(base) |-> P.xstart + i])
  /\ (desc = <<>> => \A i \in 2 .. Len(sizes') + 1 : ValidRow(<<e.rows[i][1], e.rows[i][2] * P.page, e.rows[i][3]>>))
  /\ cls' = e.rows /\ UNCHANGED desc
\* the region (partition) of classes a kind of request is served from
Region(type, cold, part) ==
  LET full == P.mode = 1  light == P.mode = 2 IN
  IF cold = 1 THEN (IF full /\ part = 1 THEN 1 ELSE P.xstart \div P.nb)
  ELSE IF full THEN part
  ELSE IF light THEN (IF type = "new" THEN 1 ELSE part)
  ELSE 0
TMap ==
  /\ IsOp("map") /\ UNCHANGED <<desc, cls, sizes>>
  /\ LET R == e.runs  n == Len(R) IN
     /\ n >= 1 /\ R[1][1] = 0 /\ R[n][2] = e.top
     /\ \A i \in 1 .. n : R[i][1] <= R[i][2] /\ (i < n => R[i + 1][1] = R[i][2] + 1)
     /\ \A i \in 1 .. n :
          \* the block is constant over the run, and the best fit is monotone: the ends decide
          /\ R[i][3] = Fit(sizes, R[i][1], e.align) /\ R[i][3] = Fit(sizes, R[i][2], e.align)
          /\ IF R[i][3] = 0 THEN R[i][4] = 0
             ELSE /\ cls[R[i][4] + 1][1] = R[i][3]
                  /\ (R[i][4] \div P.nb = Region(e.type, e.cold, e.part) \/ (R[i][2] = 0 /\ e.cold = 1))
TApi ==
  /\ IsOp("api") /\ UNCHANGED <<desc, cls, sizes>>
  /\ LET b1 == Block(sizes, e.n, 1)  b16 == Block(sizes, e.n, 16)  ba == Block(sizes, e.n, e.align)  b8 == Block(sizes, e.n, e.al8) IN
     /\ e.nalloc = b1 /\ e.est = b1 /\ e.cnew = b1 /\ e.rnew = b1 /\ e.crnew = b1 /\ e.rcold = b1 /\ e.ccold = b1
     /\ e.cmal = b16 /\ e.usable = b16 /\ e.ral = b16 /\ e.cral = b16
     /\ e.anal = ba /\ e.canew = ba /\ e.ranew = ba /\ e.cranew = ba
     /\ e.caal = b8 /\ e.raal = b8 /\ e.craal = b8
     /\ e.nalloc <= e.cmal
Next == TParams \/ TTable \/ TClasses \/ TMap \/ TApi
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
