------------------------------- MODULE Guarded -------------------------------
(* The guarded page allocator: T block pages of P bytes, each between two pages nobody may touch.  The pool is the    *)
(* address range 0 .. (2T+1)P-1; page 2s+1 belongs to slot s.                                                         *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS T, Most, P, Sizes, Aligns, Magic, Dflt, MaxAllocs
VARIABLES slot,    \* per slot: ever used, live, start address, size, frees, slack written over
          high, made, touched,
          report   \* what the last misuse was reported as
vars == <<slot, high, made, touched, report>>
S == 0..(T - 1)
Addrs == 0..((2 * T + 1) * P - 1)
Page(s) == (2 * s + 1) * P
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilPow2(n) == CHOOSE p \in {1, 2, 4, 8, 16} : p >= n /\ \A q \in {1, 2, 4, 8, 16} : q >= n => q >= p
\* blocks of even slots end as close to the guard page as the alignment permits; those of odd slots begin at theirs
Start(s, n, a) == IF s % 2 = 1 \/ n = 0 THEN Page(s)
                  ELSE LET al == Max2(a, Min2(CeilPow2(n), Dflt)) IN Page(s) + (((P - n) \div al) * al)
Live == {s \in S : slot[s].live}
Readable(x) == \E s \in Live : slot[s].n > 0 /\ x >= Page(s) /\ x < Page(s) + P
Nearest(x) == LET pg == x \div P IN
              IF pg % 2 = 1 THEN pg \div 2
              ELSE IF pg = 0 THEN 0 ELSE IF pg = 2 * T THEN T - 1
              ELSE IF 2 * (x % P) < P THEN (pg \div 2) - 1 ELSE pg \div 2
Class(x) == LET d == slot[Nearest(x)] IN
            IF ~d.ever THEN "unknown" ELSE IF d.frees >= 2 THEN "double" ELSE IF d.over THEN "over_free"
            ELSE IF d.frees = 1 THEN "uaf" ELSE IF x < d.start THEN "under" ELSE IF x >= d.start + d.n THEN "over" ELSE "unknown"
Init == slot = [s \in S |-> [ever |-> FALSE, live |-> FALSE, start |-> 0, n |-> 0, frees |-> 0, dirty |-> FALSE, over |-> FALSE]]
        /\ high = 0 /\ made = 0 /\ touched = 0 /\ report = <<>>
Alloc(s, n, a) ==
  /\ made < MaxAllocs /\ s \notin Live /\ Cardinality(Live) < Most
  /\ slot' = [slot EXCEPT ![s] = [ever |-> TRUE, live |-> TRUE, start |-> Start(s, n, a), n |-> n, frees |-> 0, dirty |-> FALSE, over |-> FALSE]]
  /\ high' = Max2(high, Cardinality(Live) + 1) /\ made' = made + 1
  /\ touched' = touched + (IF slot[s].ever THEN 0 ELSE 1) /\ report' = <<>>
Slack(s) == {x \in Addrs : x >= slot[s].start + slot[s].n /\ x < Page(s) + P /\ x < slot[s].start + slot[s].n + Magic}
Write(x) == /\ report = <<>>
            /\ IF Readable(x) THEN /\ slot' = [s \in S |-> IF s \in Live /\ s % 2 = 0 /\ x \in Slack(s) THEN [slot[s] EXCEPT !.dirty = TRUE] ELSE slot[s]]
                                   /\ report' = report
               ELSE slot' = slot /\ report' = <<"access", x, Class(x)>>
            /\ UNCHANGED <<high, made, touched>>
Free(s) == /\ s \in Live /\ report = <<>>
           /\ slot' = [slot EXCEPT ![s].live = FALSE, ![s].frees = 1, ![s].over = slot[s].dirty]
           /\ report' = IF slot[s].dirty THEN <<"free", slot[s].start, "over_free">> ELSE <<>>
           /\ UNCHANGED <<high, made, touched>>
Again(s) == /\ slot[s].frees = 1 /\ report = <<>> /\ ~slot[s].over
            /\ slot' = [slot EXCEPT ![s].frees = 2] /\ report' = <<"free", slot[s].start, "double">> /\ UNCHANGED <<high, made, touched>>
\* (a report stops the program)
Next == report = <<>> /\ ((\E s \in S, n \in Sizes, a \in Aligns : Alloc(s, n, a)) \/ (\E x \in Addrs : Write(x)) \/ (\E s \in S : Free(s) \/ Again(s)))
Spec == Init /\ [][Next]_vars
Bounds == Cardinality(Live) <= Most /\ high <= Most /\ touched <= T /\ high >= Cardinality(Live) /\ made >= touched
Block(s) == slot[s].start..(slot[s].start + slot[s].n - 1)
Own == \A s \in Live : Block(s) \subseteq Page(s)..(Page(s) + P - 1)
Apart == \A s, t \in Live : s # t => \A x \in Block(s), y \in Block(t) : x - y > P \/ y - x > P
\* a program that stays within its blocks is never reported, every other access outside the pages in use is
Sound == report # <<>> =>
  IF report[1] = "access" THEN (\A s \in Live : report[2] \notin Block(s)) /\ ~Readable(report[2])
  ELSE report[3] = "double" \/ slot[Nearest(report[2])].dirty
\* what is next to a live block is named after the block
Named == \A s \in Live : slot[s].n > 0 =>
  /\ (s % 2 = 1 => Class(slot[s].start - 1) = "under")
  /\ (s % 2 = 0 /\ slot[s].start + slot[s].n = Page(s) + P => Class(Page(s) + P) = "over")
Inv == Bounds /\ Own /\ Apart /\ Sound /\ Named
=============================================================================
