----------------------------- MODULE FreesTrace -----------------------------
(* How deallocations, right and wrong, ended in the real allocator.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC, FreeRules
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
e == Trace[l]
P == Trace[1].p
KMax == Trace[1].kmax
Dbg == Trace[1].dbg
Init == l = 2
B == [small |-> e.small, tagged |-> e.tagged, sampled |-> e.sampled, guarded |-> e.guarded, sr |-> e.sr, n |-> e.n, cap |-> e.cap,
      al |-> e.al, new |-> e.new, mal |-> e.mal, low |-> e.low]
F == [d |-> e.d, again |-> e.what = "again", never |-> e.what = "never", wnew |-> e.wnew, sized |-> e.sized, size |-> e.size,
      wal |-> e.wal, same |-> e.same, at |-> e.at + e.d]
Went == e.rc = 0 /\ e.kind = "none" /\ e.step = 2
\* stopped by a report, in the call that was wrong
Stopped(k, at) == (e.rc = 6 \/ (e.rc = 11 /\ e.kind = "double_guarded")) /\ e.kind \in k /\ e.step = at
Free == /\ e.op = "free"
        /\ (IF Correct(B, F) THEN Went
            ELSE IF Must(B, F, P, KMax, Dbg) THEN Stopped(Names(B, F), IF F.again THEN 1 ELSE -1)
            ELSE Went \/ Stopped(Names(B, F), IF F.again THEN 1 ELSE -1)) = TRUE
\* the central free list: what belongs to another class, or to nothing any more
Central == /\ e.op = "central"
           /\ (CASE e.what = "class" -> Stopped({"class"}, -1)
                 [] e.what = "again" -> Went \/ Stopped({"double", "check"}, 1)
                 [] e.what = "gone" -> Stopped({"double"}, 1)) = TRUE
Realloc == /\ e.op = "realloc"
           /\ (CASE e.what = "ok" -> Went
                 [] e.what = "inside" -> Stopped({"corrupt", "double"}, -1)
                 [] e.what = "gone" -> Stopped({"double"}, 1)) = TRUE
End == e.op = "end" /\ l = Len(Trace)
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Free \/ Central \/ Realloc \/ End)
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
