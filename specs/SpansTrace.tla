----------------------------- MODULE SpansTrace -----------------------------
(* Enumerations of the allocated spans of the running allocator against the *)
(* blocks the program holds and the pages the page heap counts as in use.   *)
(* Page numbers are compressed: distances inside a span are kept.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ps, base
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Init == l = 1 /\ ps = 0 /\ base = 0
Params == IsOp("params") /\ ps' = e.ps /\ UNCHANGED base
\* b.k names the only span that may hold the block (a hint, checked here)
Covered(b) == LET m == b.k IN
  /\ m > 0 /\ e.spans[m].s <= b.p /\ b.p < e.spans[m].s + e.spans[m].n
  /\ LET s == e.spans[m]
         off == (b.p - s.s) * ps + b.f IN
     IF s.o = 0 THEN off = 0 /\ b.n <= s.n * ps                 \* a block of its own
     ELSE off % s.o = 0 /\ b.n <= s.o /\ b.u = s.o /\ off + s.o <= s.n * ps
Strangers == LET big == { i \in DOMAIN e.spans : e.spans[i].o = 0 }
                 own == { e.blocks[i].k : i \in DOMAIN e.blocks } IN Cardinality(big \ own)
Report == /\ UNCHANGED ps /\ e.aligned
          /\ \A i \in 1 .. Len(e.spans) - 1 : e.spans[i].n > 0 /\ e.spans[i].s + e.spans[i].n <= e.spans[i + 1].s
          /\ (\A i \in DOMAIN e.blocks : Covered(e.blocks[i])) = TRUE
          /\ e.rest = 0 /\ MapThenSumSet(LAMBDA i : e.spans[i].n, DOMAIN e.spans) = e.pages
\* what the runtime holds before the program's first allocation stays
Base == IsOp("base") /\ Report /\ base' = Strangers
\* every other span of its own belongs to a live block of the program
Spans == IsOp("spans") /\ Report /\ Strangers = base /\ UNCHANGED base
Next == Params \/ Base \/ Spans
Spec == Init /\ [][Next]_<<l, ps, base>>
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
