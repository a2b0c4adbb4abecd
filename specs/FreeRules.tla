----------------------------- MODULE FreeRules ------------------------------
(* What a deallocation has to be.  A block b: small (from a size class), tagged (in the memory set apart for small     *)
(* samples), sampled, guarded, sr (its size was returned), n (asked for), cap (usable), al (alignment asked for, 0 if   *)
(* none), new (else malloc), low (alignment its size class provides).  A deallocation f: d (offset into the block),    *)
(* again, never (not an address of the heap), wnew, sized, size, wal, same (that size belongs to the block's class),    *)
(* at (the address).  P: page size; kMax: largest small size; dbg: assertions are compiled in.                          *)
EXTENDS Integers
SizeOk(b, f) == IF b.sr THEN f.size >= b.n /\ f.size <= b.cap ELSE f.size = b.n
\* the rules a program has to keep
Correct(b, f) == /\ f.d = 0 /\ ~f.again /\ ~f.never /\ f.wnew = b.new
                 /\ (f.sized => SizeOk(b, f)) /\ ((b.new \/ f.sized) => f.wal = b.al)
\* which rules were broken, by the names reports give them (a wrong size or alignment can lead to the wrong place)
Names(b, f) ==
  (IF f.again THEN {"double", "double_guarded", "check"} ELSE {}) \cup (IF f.never THEN {"corrupt"} ELSE {})
  \cup (IF f.d > 0 THEN {"corrupt", "misaligned", "double"} ELSE {})
  \cup (IF f.sized /\ ~SizeOk(b, f) THEN {"size", "corrupt", "class"} ELSE {})
  \cup (IF f.wnew # b.new THEN (IF b.sampled /\ ~b.guarded THEN {"type"} ELSE {"type", "align", "size", "misaligned", "check"}) ELSE {})
  \cup (IF (b.new \/ f.sized) /\ f.wal # b.al THEN {"align", "misaligned", "size", "corrupt"} ELSE {})
\* the deallocation looks at the page instead of trusting the size
PagePath(b, f, P, kMax) == IF b.small THEN f.sized /\ (f.size > kMax \/ f.wal > P)
                           ELSE b.tagged \/ ~f.sized \/ f.size > kMax \/ f.wal > P
\* the alignments as they are compared: outside operator new, none means 16
ReqAl(b) == IF b.new THEN b.al ELSE IF b.al = 0 THEN 16 ELSE b.al
OpAl(f) == IF f.wnew THEN f.wal ELSE IF f.wal = 0 THEN 16 ELSE f.wal
\* what has to be noticed at once
Must(b, f, P, kMax, dbg) ==
  \/ f.never
  \/ f.again /\ ~b.small
  \/ f.d > 0 /\ (IF b.small THEN f.d % 8 # 0 \/ (dbg /\ f.d % b.low # 0) ELSE dbg \/ f.d % 8 # 0 \/ PagePath(b, f, P, kMax))
  \/ f.sized /\ ~SizeOk(b, f) /\ ~f.again /\
       (IF PagePath(b, f, P, kMax)
        THEN b.small \/ b.sampled \/ f.size < b.cap - P + 1 \/ f.size > b.cap
        ELSE dbg /\ (IF b.small THEN ~f.same /\ f.wal <= 16 ELSE TRUE))
  \/ f.wnew # b.new /\ b.sampled /\ PagePath(b, f, P, kMax)
  \/ OpAl(f) # ReqAl(b) /\ (f.wnew = b.new) /\ (b.new \/ f.sized) /\ b.sampled /\ PagePath(b, f, P, kMax)
  \/ dbg /\ f.wal > 1 /\ f.at % f.wal # 0 /\ ~f.never
=============================================================================
