-------------------------------- MODULE Frees --------------------------------
(* The steps a deallocation goes through, for every kind of block and every way of deallocating it: a correct one is   *)
(* never stopped, and the ones FreeRules!Must lists always are, before the heap changes.                               *)
EXTENDS Integers, FiniteSets, TLC, FreeRules
CONSTANTS P, kMax, Bits
VARIABLES b, f, dbg, verdict
vars == <<b, f, dbg, verdict>>
\* a toy heap: pages of 32 bytes, size classes of 8, 16, 32 bytes up to a page, all else in pages
Class(n) == IF n <= 8 THEN 8 ELSE IF n <= 16 THEN 16 ELSE 32
Pages(n) == IF n = 0 THEN 1 ELSE ((n + P - 1) \div P)
Small(n, al) == n <= kMax /\ al <= P
Cls(n, al) == IF al > Class(n) THEN al ELSE Class(n)
Block(n, al, new, mal, smp, grd, sr) ==
  LET sm == Small(n, al) c == IF sm THEN (IF al > Class(n) THEN al ELSE Class(n)) ELSE Pages(n) * P IN
  [small |-> sm /\ ~smp, tagged |-> smp /\ sm, sampled |-> smp, guarded |-> grd /\ smp /\ sm, sr |-> sr, n |-> n, cap |-> c,
   al |-> al, new |-> new, mal |-> mal, low |-> IF sm /\ ~smp THEN c ELSE P]
Start == 64 * P
Blocks == {Block(n, al, new, mal, smp, grd, sr) :
            n \in {1, 8, 12, 30, 33, 70}, al \in {0, 16, 64}, new \in BOOLEAN, mal \in BOOLEAN, smp \in BOOLEAN, grd \in BOOLEAN, sr \in BOOLEAN}
Frees == [d : {0, 1, 8, 16, 32, 40, 64}, again : BOOLEAN, never : BOOLEAN, wnew : BOOLEAN, sized : BOOLEAN, size : {1, 8, 12, 30, 33, 64, 70, 97}, wal : {0, 16, 64}]
Full(x, y) == y @@ [same |-> Small(y.size, y.wal) /\ x.small /\ Cls(y.size, y.wal) = x.cap, at |-> Start + y.d]
\* what a program could write, with at most one rule broken
Wf == (f.wnew \/ f.sized \/ f.wal = 0) /\ ~(b.new /\ b.mal)
Single == Cardinality({i \in 1..5 : (i = 1 /\ f.again) \/ (i = 2 /\ f.d > 0) \/ (i = 3 /\ f.sized /\ ~SizeOk(b, f)) \/ (i = 4 /\ f.wnew # b.new) \/ (i = 5 /\ f.wal # b.al)}) <= 1
Init == /\ dbg \in BOOLEAN
        /\ b \in {x \in Blocks : (x.mal => ~x.new /\ x.al = 0) /\ (x.sr => x.new /\ x.al = 0) /\ (~x.mal /\ ~x.new => x.al > 0)}
        /\ f \in {Full(b, y) : y \in {z \in Frees : z.d < b.cap /\ ~(z.again /\ z.never)}}
        /\ Wf /\ Single /\ verdict = "?"
\* looking the page up: the block's first page leads to it, its other pages to nothing, a page freed to a mark
FirstPage == f.d < P
Gone == f.again /\ ~b.small
Unsample ==
  IF ~b.sampled THEN (IF f.sized /\ (f.size > Pages(b.cap) * P \/ f.size < (Pages(b.cap) * P - P) + 1) THEN "size" ELSE "on")
  ELSE IF f.sized /\ ~SizeOk(b, f) THEN "size"
  ELSE IF f.wnew # b.new THEN "type"
  ELSE IF f.d # 0 /\ ~b.guarded THEN "misaligned"
  ELSE IF (f.sized \/ f.wnew) /\ (OpAl(f) # ReqAl(b)) THEN "align" ELSE "on"
PageFree == IF ~FirstPage /\ ~b.small THEN (IF Gone THEN "double" ELSE "corrupt")
            ELSE IF Gone THEN (IF b.guarded THEN "double_guarded" ELSE "double")
            ELSE IF Unsample # "on" THEN Unsample
            ELSE IF b.small THEN "corrupt" ELSE IF f.d # 0 THEN "misaligned" ELSE "done"
CheckAlign == LET al == IF b.small THEN (IF f.wal > b.low THEN f.wal ELSE b.low) ELSE IF b.guarded THEN f.wal ELSE IF f.wal > P THEN f.wal ELSE P IN
  IF ~FirstPage /\ ~b.small THEN (IF Gone THEN "double" ELSE "corrupt") ELSE IF Gone /\ ~b.guarded THEN "double" ELSE IF al > 0 /\ f.at % al # 0 THEN "misaligned" ELSE "on"
CheckSize == IF ~b.small /\ Gone THEN "double"
             ELSE IF b.small THEN (IF f.same THEN "on" ELSE "size")
             ELSE IF Small(f.size, f.wal) \/ f.size > b.cap \/ f.size < (b.cap - P) + 1 THEN (IF f.wal > P /\ b.cap = P THEN "on" ELSE "size") ELSE "on"
Verdict ==
  IF f.never THEN "corrupt"
  ELSE IF dbg /\ (f.sized \/ f.wal > 0) /\ CheckAlign # "on" THEN CheckAlign
  ELSE IF dbg /\ ~f.sized /\ f.wal = 0 /\ CheckAlign # "on" THEN CheckAlign
  ELSE IF f.at % 8 # 0 /\ ~b.tagged /\ ~(f.sized /\ ~Small(f.size, f.wal)) THEN "misaligned"
  ELSE IF ~f.sized THEN (IF b.small THEN "done" ELSE PageFree)
  ELSE IF b.tagged THEN PageFree
  ELSE IF dbg /\ CheckSize # "on" THEN CheckSize
  ELSE IF Small(f.size, f.wal) THEN "done" ELSE PageFree
Step == verdict = "?" /\ verdict' = Verdict /\ UNCHANGED <<b, f, dbg>>
Next == Step
Spec == Init /\ [][Next]_vars
Quiet == (verdict # "?" /\ Wf /\ Correct(b, f)) => verdict = "done"
Caught == (verdict # "?" /\ Wf /\ Single /\ Must(b, f, P, kMax, dbg)) => verdict # "done"
Told == (verdict \notin {"?", "done"} /\ Wf /\ Single) => verdict \in Names(b, f)
Inv == Quiet /\ Caught /\ Told
=============================================================================
