-------------------------------- MODULE Profiles --------------------------------
(* What is sampled and live, what the profiles show of it, and the snapshot kept of the largest sampled heap.            *)
(* s: size (estimated bytes of what is sampled and live), live (set), peak (size then), snap (what was live then),        *)
(* open (session -> samples taken since it started).                                                                      *)
EXTENDS Integers, Sequences, FiniteSets
Grown(s, frac4) == frac4 > 0 /\ 4 * s.size > s.peak * frac4
\* a sampled object x of est bytes appears: counted, shown in every open session, then perhaps a new peak
Born(s, x, est, frac4) ==
  LET a == [s EXCEPT !.size = @ + est, !.live = @ \cup {x}, !.open = [n \in DOMAIN @ |-> @[n] \cup {x}]] IN
  IF Grown(a, frac4) THEN [a EXCEPT !.peak = a.size, !.snap = a.live] ELSE a
Gone(s, x, est) == [s EXCEPT !.size = @ - est, !.live = @ \ {x}]
Opens(s, n) == [s EXCEPT !.open = [m \in DOMAIN @ \cup {n} |-> IF m = n THEN {} ELSE @[m]]]
Closes(s, n) == [s EXCEPT !.open = [m \in DOMAIN @ \ {n} |-> @[m]]]
=============================================================================
