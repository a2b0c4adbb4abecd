----------------------------- MODULE HeapTrace -----------------------------
(* Accepts a recorded (possibly multi-threaded) history of the allocator iff it is a behaviour of Heap. *)
EXTENDS Heap, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Blk == [lo |-> <<e.h, e.l>>, hi |-> <<e.eh, e.el>>, req |-> e.req, cap |-> e.cap, align |-> e.align]
(* default alignment: enough for any object of the requested size, at least 8 *)
Aligned == IF e.align > 0 THEN e.am = 0 ELSE e.a16 = 0 \/ (e.cap < 16 /\ e.a16 = 8)
TAlloc ==
  /\ IsOp("alloc")
  /\ Alloc(e.id, Blk)
  /\ Aligned
  /\ (e.ret >= 0 => e.ret >= e.req /\ e.ret <= e.cap)
  /\ (e.kind = 3 => e.seen = 0)                      \* calloc: zero
TRealloc ==                                          \* (the old block was given up by a free event before the call)
  /\ IsOp("realloc")
  /\ Alloc(e.id, Blk)
  /\ Aligned
  /\ e.seen = e.tag                                  \* the common prefix as the owner had written it
TFill == IsOp("fill") /\ Fill(e.id, e.tag)
TCheck == IsOp("check") /\ Read(e.id, e.seen) /\ e.cap = live[e.id].cap
TFree == IsOp("free") /\ Free(e.id)
Init2 == Init /\ l = 1
Next == TAlloc \/ TRealloc \/ TFill \/ TCheck \/ TFree
Spec == Init2 /\ [][Next]_<<vars, l>>
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
