----------------------------- MODULE ThreadCaches -----------------------------
(* The caches of threads: free lists per size class, and a budget in bytes each has been given out of a configured    *)
(* total.  s: ov (total), un (not given to any), per (share computed last), order (caches, newest first), nx (whose     *)
(* budget is taken next, 0: nobody's), h (cache -> [max (budget), size, len, low, ml, ovg (per class)]).                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Classes, Size(_), Batch(_), Steal, MinC, MaxC, MaxOver, MaxLen
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Heaps(s) == {s.order[i] : i \in 1..Len(s.order)}
IdxOf(s, x) == CHOOSE i \in 1..Len(s.order) : s.order[i] = x
NextOf(s, x) == LET i == IdxOf(s, x) IN IF i = Len(s.order) THEN 0 ELSE s.order[i + 1]
HeadOf(s) == IF s.order = <<>> THEN 0 ELSE s.order[1]
\* more budget for x: from what nobody has, else from another cache that has more than the minimum, ten tries
RECURSIVE Take(_, _, _, _)
Take(s, x, i, p) ==
  IF i = 10 THEN [s EXCEPT !.nx = p]
  ELSE LET q == IF p = 0 THEN HeadOf(s) ELSE p IN
       IF q = x \/ s.h[q].max <= MinC THEN Take(s, x, i + 1, NextOf(s, q))
       ELSE [s EXCEPT !.h[q].max = @ - Steal, !.h[x].max = @ + Steal, !.nx = NextOf(s, q)]
Increase(s, x) == IF s.un > 0 THEN [s EXCEPT !.un = @ - Steal, !.h[x].max = @ + Steal]
                  ELSE IF s.order = <<>> THEN s ELSE Take(s, x, 0, s.nx)
Blank == [max |-> 0, size |-> 0, len |-> [c \in Classes |-> 0], low |-> [c \in Classes |-> 0], ml |-> [c \in Classes |-> 1], ovg |-> [c \in Classes |-> 0]]
Born(s, x) ==
  LET a == Increase([s EXCEPT !.h = (x :> Blank) @@ s.h], x)
      b == IF a.h[x].max = 0 THEN [a EXCEPT !.h[x].max = MinC, !.un = @ - MinC] ELSE a
  IN [b EXCEPT !.order = <<x>> \o @, !.nx = IF s.order = <<>> THEN x ELSE @]
Gone(s, x) ==
  LET nx == IF s.nx = x THEN NextOf(s, x) ELSE s.nx
      o == SelectSeq(s.order, LAMBDA y : y # x)
  IN [s EXCEPT !.order = o, !.nx = IF nx = 0 THEN (IF o = <<>> THEN 0 ELSE o[1]) ELSE nx, !.un = @ + s.h[x].max, !.h = [y \in DOMAIN s.h \ {x} |-> s.h[y]]]
\* n objects of class c go to the shared tiers
Drop(s, x, c, m) ==
  LET n == Least(m, s.h[x].len[c]) IN
  [s EXCEPT !.h[x].len[c] = @ - n, !.h[x].size = @ - n * Size(c), !.h[x].low[c] = Least(@, s.h[x].len[c] - n)]
\* f objects come from the shared tiers, the first for the caller
Want(s, x, c) == Least(s.h[x].ml[c], Batch(c))
Fetch(s, x, c, f) ==
  LET m == s.h[x].ml[c]
      g == Least(m + Batch(c), MaxLen) IN
  [s EXCEPT !.h[x].len[c] = f - 1, !.h[x].size = @ + (f - 1) * Size(c), !.h[x].ml[c] = IF m < Batch(c) THEN m + 1 ELSE g - (g % Batch(c))]
Pop(s, x, c) == Drop(s, x, c, 1)
TooLong(s, x, c) ==
  LET a == Drop(s, x, c, Batch(c)) m == s.h[x].ml[c] o == s.h[x].ovg[c] + 1 IN
  IF m < Batch(c) THEN [a EXCEPT !.h[x].ml[c] = m + 1]
  ELSE IF m = Batch(c) THEN a
  ELSE IF o > MaxOver THEN [a EXCEPT !.h[x].ml[c] = m - Batch(c), !.h[x].ovg[c] = 0] ELSE [a EXCEPT !.h[x].ovg[c] = o]
RECURSIVE Sweep(_, _, _)
Sweep(s, x, cs) ==
  IF cs = {} THEN s
  ELSE LET c == CHOOSE y \in cs : TRUE
           low == s.h[x].low[c]
           a == IF low = 0 THEN s ELSE Drop(s, x, c, IF low > 1 THEN low \div 2 ELSE 1)
           b == IF low > 0 /\ a.h[x].ml[c] > Batch(c) THEN [a EXCEPT !.h[x].ml[c] = Most(@ - Batch(c), Batch(c))] ELSE a
       IN Sweep([b EXCEPT !.h[x].low[c] = b.h[x].len[c]], x, cs \ {c})
Scavenge(s, x) == Increase(Sweep(s, x, Classes), x)
Push(s, x, c) ==
  LET a == [s EXCEPT !.h[x].len[c] = @ + 1, !.h[x].size = @ + Size(c)]
      b == IF a.h[x].len[c] > a.h[x].ml[c] THEN TooLong(a, x, c) ELSE a
      slow == a.h[x].len[c] > a.h[x].ml[c] \/ a.h[x].size >= a.h[x].max
  IN IF slow /\ b.h[x].size >= b.h[x].max THEN Scavenge(b, x) ELSE b
RECURSIVE SumMax(_, _)
SumMax(s, hs) == IF hs = {} THEN 0 ELSE LET x == CHOOSE y \in hs : TRUE IN s.h[x].max + SumMax(s, hs \ {x})
\* m * to / from in whole numbers, without products beyond 32 bits where the shares divide
Scaled(m, to, from) == IF from % to = 0 THEN m \div (from \div to) ELSE (m \div from) * to + ((m % from) * to) \div from
SetTotal(s, n0) ==
  LET n == Most(n0, MinC)
      k == IF s.order = <<>> THEN 1 ELSE Len(s.order)
      sp == Least(Most(n \div k, MinC), MaxC)
      a == IF sp < s.per THEN [s EXCEPT !.h = [x \in DOMAIN s.h |-> [s.h[x] EXCEPT !.max = Scaled(@, sp, s.per)]]] ELSE s
  IN [a EXCEPT !.ov = n, !.per = sp, !.un = n - SumMax(a, Heaps(a))]
Start(ov) == [ov |-> ov, un |-> ov, per |-> MaxC, order |-> <<>>, nx |-> 0, h |-> <<>>]
RECURSIVE Held(_, _, _)
Held(s, x, cs) == IF cs = {} THEN 0 ELSE LET c == CHOOSE y \in cs : TRUE IN s.h[x].len[c] * Size(c) + Held(s, x, cs \ {c})
\* what has to hold of any state
Sound(s) ==
  /\ s.un + SumMax(s, Heaps(s)) = s.ov
  /\ DOMAIN s.h = Heaps(s) /\ (s.order = <<>> => s.nx = 0 /\ s.un = s.ov) /\ s.nx \in Heaps(s) \cup {0}
  /\ \A x \in Heaps(s) : /\ s.h[x].max >= 0 /\ s.h[x].size = Held(s, x, Classes)
                         /\ \A c \in Classes : s.h[x].low[c] <= s.h[x].len[c] /\ s.h[x].len[c] >= 0 /\ s.h[x].ml[c] >= 1 /\ s.h[x].ml[c] <= Most(MaxLen, Batch(c))
=============================================================================
