------------------------------ MODULE HugeRegion ------------------------------
(* A region of NH contiguous huge pages of PH pages each.  Kept incrementally, as in the allocator:       *)
(*   free    the maximal runs of unused pages, <<start, length>>                                          *)
(*   used    pages in use in each huge page      backed  huge pages that may be backed                    *)
(*   fb      how many backed huge pages have no used page                                                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NH, PH
HP == 0 .. NH - 1
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
New == [free |-> {<<0, NH * PH>>}, used |-> [h \in HP |-> 0], backed |-> {}, fb |-> 0]
Longest(r) == IF r.free = {} THEN 0 ELSE (CHOOSE x \in r.free : \A y \in r.free : y[2] <= x[2])[2]
Touched(a, n) == a \div PH .. (a + n - 1) \div PH
Here(h, a, n) == Min2(a + n, (h + 1) * PH) - Max2(a, h * PH)      \* pages of [a, a + n) in huge page h
CanGet(r, a, n) == n > 0 /\ \E f \in r.free : f[1] <= a /\ a + n <= f[1] + f[2]
FromReleased(r, a, n) == \E h \in Touched(a, n) : h \notin r.backed
Get(r, a, n) ==
  LET f == CHOOSE f \in r.free : f[1] <= a /\ a + n <= f[1] + f[2]
      rest == {x \in {<<f[1], a - f[1]>>, <<a + n, f[1] + f[2] - a - n>>} : x[2] > 0}
      T == Touched(a, n) IN
  [free |-> (r.free \ {f}) \cup rest,
   used |-> [h \in HP |-> IF h \in T THEN r.used[h] + Here(h, a, n) ELSE r.used[h]],
   backed |-> r.backed \cup T,
   fb |-> r.fb - Cardinality({h \in T : h \in r.backed /\ r.used[h] = 0})]
Put(r, a, n) ==
  LET L == {f \in r.free : f[1] + f[2] = a}
      R == {f \in r.free : f[1] = a + n}
      lo == IF L = {} THEN a ELSE (CHOOSE f \in L : TRUE)[1]
      hi == IF R = {} THEN a + n ELSE LET f == CHOOSE f \in R : TRUE IN f[1] + f[2]
      T == Touched(a, n) IN
  [free |-> (r.free \ (L \cup R)) \cup {<<lo, hi - lo>>},
   used |-> [h \in HP |-> IF h \in T THEN r.used[h] - Here(h, a, n) ELSE r.used[h]],
   backed |-> r.backed,
   fb |-> r.fb + Cardinality({h \in T : r.used[h] = Here(h, a, n)})]
Emptied(r, a, n) == {h \in Touched(a, n) : r.used[h] = Here(h, a, n)}
Releasable(r) == {h \in r.backed : r.used[h] = 0}
\* the huge pages in S lost their memory
Unback(r, S) == [r EXCEPT !.backed = @ \ S, !.fb = @ - Cardinality(S)]
(* reported figures *)
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Used(r) == SumF(r.used, HP)
Unmapped(r) == (NH - Cardinality(r.backed)) * PH
Free(r) == NH * PH - Used(r) - Unmapped(r)
\* free spans: unused runs cut where the backing changes: <<length, is released>>
RECURSIVE Cut(_, _, _)
Cut(r, a, n) ==
  IF n = 0 THEN <<>>
  ELSE LET b == (a \div PH) \in r.backed
           last == (a + n - 1) \div PH
           ch == {h \in a \div PH .. last : (h \in r.backed) # b}
           lim == IF ch = {} THEN a + n ELSE (CHOOSE h \in ch : \A g \in ch : h <= g) * PH
       IN <<<<lim - a, ~b>>>> \o Cut(r, lim, a + n - lim)
RECURSIVE Spans(_, _)
Spans(r, F) == IF F = {} THEN <<>> ELSE LET f == CHOOSE f \in F : TRUE IN Cut(r, f[1], f[2]) \o Spans(r, F \ {f})
===============================================================================
