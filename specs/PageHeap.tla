------------------------------ MODULE PageHeap ------------------------------
(***************************************************************************)
(* The page heap: what any of its tiers may do.  Pages are numbered; huge  *)
(* page h consists of pages h*HP .. h*HP+HP-1.                             *)
(*   sys     huge pages obtained from the system                           *)
(*   live    first page of a run handed out -> [n |-> pages, don |-> the   *)
(*           rest of its last huge page was given to the packing tier]     *)
(*   unb     huge pages that are unmapped as a whole                       *)
(*   rel     huge page -> its pages released one by one (nonempty, partly  *)
(*           used huge pages)                                              *)
(*   drain   huge pages that became empty while partly released -> pages   *)
(*           still there; those are being released, and the huge page      *)
(*           counts as unmapped from then on                               *)
(*   gift    huge pages given in part -> [n |-> pages the large run kept,  *)
(*           ab |-> the large run is gone]                                 *)
(*   limbo   huge pages being released with the lock dropped               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANT HP
VARIABLES sys, live, unb, rel, drain, gift, limbo
hvars == <<sys, live, unb, rel, drain, gift, limbo>>

Pg(p, n) == p .. p + n - 1
Hps(p, n) == (p \div HP) .. ((p + n - 1) \div HP)
Whole(h) == Pg(h * HP, HP)
Clash(p, n) == \E q \in DOMAIN live : (p < q + live[q].n) /\ (q < p + n)
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]
UsedIn(L, h) == { q \in DOMAIN L : (q < h * HP + HP) /\ (h * HP < q + L[q].n) }
(* the pages of huge page h that are handed out *)
UsedPages(h) == UNION { Pg(q, live[q].n) \cap Whole(h) : q \in UsedIn(live, h) }
(* pages of a run that are not backed now *)
Missing(p, n) == (\E h \in Hps(p, n) : h \in unb) \/ (\E h \in Hps(p, n) \cap DOMAIN rel : rel[h] \cap Pg(p, n) # {})

HInit == /\ sys = {} /\ live = <<>> /\ unb = {} /\ rel = <<>> /\ drain = <<>> /\ gift = <<>> /\ limbo = {}

Grow(a, m) ==
  /\ m > 0 /\ (a .. a + m - 1) \cap sys = {}
  /\ sys' = sys \cup (a .. a + m - 1) /\ unb' = unb \cup (a .. a + m - 1)
  /\ UNCHANGED <<live, rel, drain, gift, limbo>>

(* a run is handed out *)
Take(p, n, d) ==
  /\ n > 0 /\ Hps(p, n) \subseteq sys \ (limbo \cup DOMAIN drain)
  /\ ~Clash(p, n)
  /\ LET last == (p + n - 1) \div HP IN
     /\ d => (p % HP = 0) /\ (n % HP # 0) /\ (UsedIn(live, last) = {}) /\ (last \notin DOMAIN gift)
     /\ gift' = IF d THEN (last :> [n |-> n % HP, ab |-> FALSE]) @@ gift ELSE gift
  /\ live' = (p :> [n |-> n, don |-> d]) @@ live
  /\ unb' = unb \ Hps(p, n)
  /\ LET hs == Hps(p, n) \cap DOMAIN rel
         gone == { h \in hs : rel[h] \subseteq Pg(p, n) } IN
     rel' = [h \in DOMAIN rel \ gone |-> IF h \in hs THEN rel[h] \ Pg(p, n) ELSE rel[h]]
  /\ UNCHANGED <<sys, drain, limbo>>

(* a run comes back; huge pages that become empty while partly released are on their way out *)
Give(p, n) ==
  /\ p \in DOMAIN live /\ live[p].n = n
  /\ live' = Drop(live, {p})
  /\ LET e == { h \in Hps(p, n) : UsedIn(live', h) = {} }
         r == e \cap DOMAIN rel
         last == (p + n - 1) \div HP
         g == Drop(gift, e) IN
     /\ rel' = Drop(rel, r)
     /\ unb' = unb \cup { h \in r : rel[h] = Whole(h) }
     /\ drain' = [h \in { x \in r : rel[x] # Whole(x) } |-> HP - Cardinality(rel[h])] @@ drain
     /\ gift' = IF live[p].don /\ last \in DOMAIN g THEN [g EXCEPT ![last].ab = TRUE] ELSE g
  /\ UNCHANGED <<sys, limbo>>

(* the system is asked to drop pages; never any that are in use *)
MayDrop(p, n) == /\ n > 0 /\ Hps(p, n) \subseteq sys \ limbo /\ ~Clash(p, n)
DropWhole(p, n, ok) == LET hs == Hps(p, n) IN
  /\ unb' = IF ok THEN unb \cup hs ELSE unb \cup (DOMAIN drain \cap hs)
  /\ drain' = Drop(drain, hs)
  /\ UNCHANGED <<sys, live, rel, gift>>
(* only pages of a partly used huge page that are still there *)
MayDropPart(p, n) == LET h == p \div HP IN
  /\ Hps(p, n) = {h} /\ h \notin unb
  /\ h \in DOMAIN rel => rel[h] \cap Pg(p, n) = {}
DropPart(p, n, ok) == LET h == p \div HP IN
  /\ rel' = IF ok THEN (h :> (Pg(p, n) \cup (IF h \in DOMAIN rel THEN rel[h] ELSE {}))) @@ rel ELSE rel
  /\ UNCHANGED <<sys, live, unb, drain, gift>>

(* totals, in pages *)
RECURSIVE SumOver(_, _, _)
SumOver(S, f, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE x \in S : TRUE IN SumOver(S \ {x}, f, acc + f[x])
Used == SumOver(DOMAIN live, [q \in DOMAIN live |-> live[q].n], 0)
Unmapped == Cardinality(unb) * HP + SumOver(DOMAIN rel, [h \in DOMAIN rel |-> Cardinality(rel[h])], 0)
Abandoned == SumOver({ h \in DOMAIN gift : gift[h].ab }, [h \in DOMAIN gift |-> gift[h].n], 0)

Disjoint == \A p, q \in DOMAIN live : p # q => Pg(p, live[p].n) \cap Pg(q, live[q].n) = {}
InSystem == \A p \in DOMAIN live : Hps(p, live[p].n) \subseteq sys
BackedUse == \A p \in DOMAIN live : ~Missing(p, live[p].n)
Consistent == /\ unb \subseteq sys /\ DOMAIN rel \subseteq sys \ unb
              /\ \A h \in DOMAIN rel : rel[h] # {} /\ rel[h] \subseteq Whole(h)
              /\ \A h \in DOMAIN gift : UsedIn(live, h) # {}
=============================================================================
