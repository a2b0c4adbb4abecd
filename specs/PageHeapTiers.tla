---------------------------- MODULE PageHeapTiers ----------------------------
(***************************************************************************)
(* The tiers behind the page heap, with the bookkeeping the implementation *)
(* keeps incrementally, checked against the abstract page heap.            *)
(*   own     huge page -> tier: "alloc" (unbacked), "cache" (backed, free),*)
(*           "raw" (part of a large run), "fill" (packed), "reg" (region)  *)
(*   virt    packed huge pages whose head belongs to a large run           *)
(*   rback   region huge pages that are backed                             *)
(*   nused, nunm, ndon, nab  incremental totals                            *)
(***************************************************************************)
EXTENDS PageHeap
CONSTANTS NHP, Small, RLen, MaxN, Fails
VARIABLES own, rback, nused, nunm, ndon, nab
vars == <<hvars, own, rback, nused, nunm, ndon, nab>>
AllH == 0 .. NHP - 1
Tier(t) == { h \in DOMAIN own : own[h] = t }
SetOwn(S, t) == [h \in DOMAIN own \cup S |-> IF h \in S THEN t ELSE own[h]]

Init == HInit /\ own = <<>> /\ rback = {} /\ nused = 0 /\ nunm = 0 /\ ndon = 0 /\ nab = 0

(* h .. h+k-1 all in the cache, or all unbacked, or (only if there is no such run) fresh *)
RunOf(t, h, k) == (h .. h + k - 1) \subseteq Tier(t)
HasRunOf(t, k) == \E h \in AllH : RunOf(t, h, k)
FreshRun(h, k) == ((h .. h + k - 1) \subseteq AllH) /\ ((h .. h + k - 1) \cap sys = {})
System == \E h \in AllH, k \in 1 .. NHP :
  /\ FreshRun(h, k) /\ Grow(h, k) /\ own' = SetOwn(h .. h + k - 1, "alloc") /\ nunm' = nunm + k * HP
  /\ UNCHANGED <<rback, nused, ndon, nab>>
Source(h, k) == RunOf("cache", h, k) \/ (~HasRunOf("cache", k) /\ RunOf("alloc", h, k))

FreeAt(h) == { o \in 0 .. HP - 1 : (h * HP + o) \notin UsedPages(h) }
Fits(h, o, n) == (o .. o + n - 1) \subseteq FreeAt(h)
SomeFit(n) == \E h \in Tier("fill"), o \in 0 .. HP - n : Fits(h, o, n)
RelIn(p, n) == LET h == p \div HP IN IF h \in DOMAIN rel THEN Cardinality(rel[h] \cap Pg(p, n)) ELSE 0

Packed(n) == \E h \in Tier("fill"), o \in 0 .. HP - n :
  /\ n < HP /\ Fits(h, o, n) /\ Take(h * HP + o, n, FALSE)
  /\ nused' = nused + n /\ nunm' = nunm - RelIn(h * HP + o, n)
  /\ UNCHANGED <<own, rback, ndon, nab>>
Refill(n) == \E h \in AllH :
  /\ n <= Small /\ ~SomeFit(n) /\ Source(h, 1) /\ Take(h * HP, n, FALSE)
  /\ own' = SetOwn({h}, "fill") /\ nused' = nused + n
  /\ nunm' = nunm - (IF own[h] = "alloc" THEN HP ELSE 0)
  /\ UNCHANGED <<rback, ndon, nab>>
Raw(n) == \E h \in AllH : LET k == (n + HP - 1) \div HP IN
  /\ n > Small /\ Source(h, k)
  /\ Take(h * HP, n, n % HP # 0)
  /\ own' = [x \in DOMAIN own |-> IF (x = h + k - 1) /\ (n % HP # 0) THEN "fill" ELSE IF x \in h .. h + k - 1 THEN "raw" ELSE own[x]]
  /\ nused' = nused + n /\ nunm' = nunm - (IF own[h] = "alloc" THEN k * HP ELSE 0)
  /\ ndon' = ndon + (IF n % HP # 0 THEN 1 ELSE 0)
  /\ UNCHANGED <<rback, nab>>
AddRegion == \E h \in AllH :
  /\ RLen > 0 /\ Tier("reg") = {} /\ RunOf("alloc", h, RLen)
  /\ own' = SetOwn(h .. h + RLen - 1, "reg") /\ UNCHANGED <<hvars, rback, nused, nunm, ndon, nab>>
InRegion(n) == \E p \in 0 .. NHP * HP - 1 :
  /\ n > Small /\ n % HP # 0 /\ Hps(p, n) \subseteq Tier("reg") /\ Take(p, n, FALSE)
  /\ rback' = rback \cup Hps(p, n)
  /\ nused' = nused + n /\ nunm' = nunm - Cardinality(Hps(p, n) \ rback) * HP
  /\ UNCHANGED <<own, ndon, nab>>

(* freeing: where the run came from decides *)
Empty(L, h) == UsedIn(L, h) = {}
Delete(p) == LET n == live[p].n
                 h == p \div HP
                 last == (p + n - 1) \div HP
                 after == Drop(live, {p})
                 e == { x \in Hps(p, n) : Empty(after, x) } IN
  /\ Give(p, n)
  /\ nused' = nused - n
  /\ \/ /\ own[h] = "reg" /\ UNCHANGED <<own, rback, nunm, ndon, nab>>
     \/ /\ own[h] # "reg" /\ UNCHANGED rback
        (* whole huge pages of a large run, and its last one if the packing tier is done with it *)
        /\ own' = [x \in DOMAIN own |->
              IF x \notin e THEN own[x] ELSE IF x \in DOMAIN rel THEN "alloc" ELSE "cache"]
        (* pages released one by one stay counted; the rest of such a huge page is released now *)
        /\ nunm' = nunm + SumOver(e \cap DOMAIN rel, [x \in DOMAIN rel |-> HP - Cardinality(rel[x])], 0)
        /\ ndon' = ndon - Cardinality(e \cap DOMAIN gift)
        /\ nab' = nab + (IF live[p].don /\ last \notin e THEN gift[last].n ELSE 0)
                      - SumOver({ x \in e \cap DOMAIN gift : gift[x].ab }, [x \in DOMAIN gift |-> gift[x].n], 0)
DelAny == DOMAIN drain = {} /\ (\E p \in DOMAIN live : Delete(p))
FinishDrain == \E h \in DOMAIN drain, ok \in (IF Fails THEN BOOLEAN ELSE {TRUE}) :
  /\ MayDrop(h * HP, HP) /\ DropWhole(h * HP, HP, ok) /\ UNCHANGED <<limbo, own, rback, nused, nunm, ndon, nab>>

ReleaseCached == \E h \in Tier("cache"), ok \in (IF Fails THEN BOOLEAN ELSE {TRUE}) :
  /\ MayDrop(h * HP, HP) /\ DropWhole(h * HP, HP, ok)
  /\ IF ok THEN own' = SetOwn({h}, "alloc") /\ nunm' = nunm + HP ELSE UNCHANGED <<own, nunm>>
  /\ UNCHANGED <<limbo, rback, nused, ndon, nab>>
ReleaseRegion == \E h \in rback :
  /\ UsedIn(live, h) = {} /\ MayDrop(h * HP, HP) /\ DropWhole(h * HP, HP, TRUE)
  /\ rback' = rback \ {h} /\ nunm' = nunm + HP
  /\ UNCHANGED <<limbo, own, nused, ndon, nab>>
Subrelease == \E h \in Tier("fill"), o \in 0 .. HP - 1, n \in 1 .. HP :
  /\ o + n <= HP /\ Fits(h, o, n) /\ MayDrop(h * HP + o, n) /\ MayDropPart(h * HP + o, n)
  /\ DropPart(h * HP + o, n, TRUE) /\ nunm' = nunm + n
  /\ UNCHANGED <<limbo, own, rback, nused, ndon, nab>>

Next == \/ System \/ (\E n \in 1 .. MaxN : DOMAIN drain = {} /\ (Packed(n) \/ Refill(n) \/ Raw(n) \/ InRegion(n)))
        \/ (DOMAIN drain = {} /\ AddRegion) \/ DelAny \/ FinishDrain
        \/ (DOMAIN drain = {} /\ (ReleaseCached \/ ReleaseRegion \/ Subrelease))
Spec == Init /\ [][Next]_vars

(* the incremental totals are the real ones, and free = system - used - unmapped is made of whole tiers *)
Totals == DOMAIN drain = {} =>
  /\ nused = Used /\ nunm = Unmapped /\ ndon = Cardinality(DOMAIN gift) /\ nab = Abandoned
TiersRight ==
  /\ DOMAIN own = sys
  /\ Tier("alloc") \subseteq unb \cup DOMAIN drain /\ Tier("cache") \cap unb = {}
  /\ unb \cup DOMAIN drain = Tier("alloc") \cup (Tier("reg") \ rback)
  /\ \A h \in Tier("alloc") \cup Tier("cache") : UsedIn(live, h) = {}
  /\ \A h \in Tier("raw") : UsedPages(h) = Whole(h)
  /\ \A h \in Tier("fill") : UsedIn(live, h) # {}
  /\ DOMAIN rel \subseteq Tier("fill") /\ DOMAIN gift \subseteq Tier("fill")
=============================================================================
