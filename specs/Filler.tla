-------------------------------- MODULE Filler --------------------------------
(* A huge page of PH small pages that is partly in use.                                                   *)
(*   free  maximal runs of pages not in use, <<start, length>>      nu   pages in use                     *)
(*   rel   the free pages given back to the system                  live the runs handed out              *)
(*   don   donated (the tail of a large allocation, untouched since) dense holds densely accessed pages   *)
(*   brk   known not to be one intact huge page any more            wr   was released, then reused        *)
(* Everything the filler reports is a function of these.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS PH
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
New(dense, don) == [free |-> {<<0, PH>>}, nu |-> 0, rel |-> {}, live |-> {}, obj |-> 0, don |-> don, dense |-> dense, brk |-> FALSE, wr |-> FALSE]
Pages(a, n) == a .. a + n - 1
Longest(t) == IF t.free = {} THEN 0 ELSE (CHOOSE x \in t.free : \A y \in t.free : y[2] <= x[2])[2]
NRel(t) == Cardinality(t.rel)
NFree(t) == PH - t.nu
CanGet(t, a, n) == n > 0 /\ \E f \in t.free : f[1] <= a /\ a + n <= f[1] + f[2]
Get(t, a, n, o) ==
  LET f == CHOOSE f \in t.free : f[1] <= a /\ a + n <= f[1] + f[2]
      rest == {x \in {<<f[1], a - f[1]>>, <<a + n, f[1] + f[2] - a - n>>} : x[2] > 0} IN
  [t EXCEPT !.free = (@ \ {f}) \cup rest, !.nu = @ + n, !.rel = IF @ = {} THEN {} ELSE @ \ Pages(a, n),
            !.live = @ \cup {<<a, n, o>>}, !.obj = @ + o, !.don = FALSE]
Put(t, a, n, o) ==
  LET L == {f \in t.free : f[1] + f[2] = a}
      R == {f \in t.free : f[1] = a + n}
      lo == IF L = {} THEN a ELSE (CHOOSE f \in L : TRUE)[1]
      hi == IF R = {} THEN a + n ELSE LET f == CHOOSE f \in R : TRUE IN f[1] + f[2] IN
  [t EXCEPT !.free = (@ \ (L \cup R)) \cup {<<lo, hi - lo>>}, !.nu = @ - n, !.live = @ \ {<<a, n, o>>}, !.obj = @ - o, !.don = FALSE]
FreePages(t) == UNION {Pages(f[1], f[2]) : f \in t.free}
\* maximal runs of a set of pages
RunsOf(S) == LET st == {p \in S : p - 1 \notin S} IN
             {<<p, (CHOOSE q \in p .. PH - 1 : q \in S /\ q + 1 \notin S /\ \A z \in p .. q : z \in S) - p + 1>> : p \in st}
\* the runs that releasing all free pages of t would give back
Releasable(t) == FreePages(t) \ t.rel
\* pages P lost their memory
Release(t, P) == [t EXCEPT !.rel = @ \cup P, !.brk = @ \/ P # {}, !.don = FALSE]
(* The kinds of huge page.  m: huge pages found broken count as released until known intact again.        *)
Kind(t, m) == IF t.don THEN "donated"
              ELSE IF t.rel = {} /\ (~t.brk \/ ~m) THEN "regular"
              ELSE IF NFree(t) <= NRel(t) THEN "released" ELSE "partial"
================================================================================
