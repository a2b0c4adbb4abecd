------------------------------ MODULE HugeCache ------------------------------
(***************************************************************************)
(* The cache of backed huge pages in front of the huge-page allocator.     *)
(*   inuse    huge pages handed to the caller                              *)
(*   cached   backed huge pages held by the cache                          *)
(*   limbo    ranges being unbacked right now: <<op id, a, n, ok>>; the    *)
(*            page-heap lock is dropped there, so other operations run     *)
(*   unbacked huge pages of the allocator behind it                        *)
(*   sys      huge pages obtained from the system                          *)
(*   limit    current limit                                                *)
(*   ops      operations under way: id -> record                           *)
(***************************************************************************)
EXTENDS Runs
CONSTANTS Base            \* lower bound (and initial value) of the limit
VARIABLES inuse, cached, limbo, unbacked, sys, limit, ops, hits, misses, fills, overs, fast, periodic
vars == <<inuse, cached, limbo, unbacked, sys, limit, ops, hits, misses, fills, overs, fast, periodic>>

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
LimboPages == UNION { Ival(x[2], x[3]) : x \in limbo }

Init ==
  /\ inuse = {} /\ cached = {} /\ limbo = {} /\ unbacked = {} /\ sys = {} /\ limit = Base /\ ops = <<>>
  /\ hits = 0 /\ misses = 0 /\ fills = 0 /\ overs = 0 /\ fast = 0 /\ periodic = 0

(* the limit grows only when a request missed, by at most the working set's dip plus a tenth *)
GrowTo(newlimit, n) ==
  /\ newlimit >= limit
  /\ LET use == Cardinality(inuse) + n IN newlimit > limit => newlimit <= use + use \div 10
  /\ limit' = newlimit
(* the limit shrinks by at most half of what the cache holds (but may always step down by one) *)
MayShrinkTo(newlimit, held) ==
  /\ newlimit <= limit /\ newlimit >= Min2(Base, limit)
  /\ limit - newlimit <= Max2(1, held \div 2)

GetHit(n, a) ==
  /\ HasRun(cached, n)
  /\ n > 0 /\ Ival(a, n) \subseteq cached
  /\ cached' = cached \ Ival(a, n) /\ inuse' = inuse \cup Ival(a, n)
  /\ hits' = hits + 1
  /\ UNCHANGED <<limbo, unbacked, sys, limit, ops, misses, fills, overs, fast, periodic>>
GetMiss(n, a, s, m, newlimit) ==            \* m = 0: served from ranges the allocator has
  /\ ~HasRun(cached, n)
  /\ IF m = 0 THEN HasRun(unbacked, n) /\ sys' = sys
              ELSE ~HasRun(unbacked, n) /\ m >= n /\ Ival(s, m) \cap sys = {} /\ sys' = sys \cup Ival(s, m)
  /\ LET f == unbacked \cup Ival(s, m) IN
       /\ Ival(a, n) \subseteq f
       /\ unbacked' = f \ Ival(a, n)
  /\ inuse' = inuse \cup Ival(a, n)
  /\ misses' = misses + 1
  /\ GrowTo(newlimit, n)
  /\ UNCHANGED <<cached, limbo, ops, hits, fills, overs, fast, periodic>>
GetFail(n) ==
  /\ ~HasRun(cached, n) /\ ~HasRun(unbacked, n)
  /\ misses' = misses + 1
  /\ UNCHANGED <<inuse, cached, limbo, unbacked, sys, limit, ops, hits, fills, overs, fast, periodic>>
ReleaseUnbacked(a, n) ==
  /\ n > 0 /\ Ival(a, n) \subseteq inuse
  /\ inuse' = inuse \ Ival(a, n) /\ unbacked' = unbacked \cup Ival(a, n)
  /\ UNCHANGED <<cached, limbo, sys, limit, ops, hits, misses, fills, overs, fast, periodic>>

Ops(id) == id \in DOMAIN ops
AddOp(id, r) == ops' = [i \in DOMAIN ops \cup {id} |-> IF i = id THEN r ELSE ops[i]]
DelOp(id) == ops' = [i \in DOMAIN ops \ {id} |-> ops[i]]
(* the most the cache can have been seen to hold lately: ranges other operations are just taking out count *)
RECURSIVE SumDone(_)
SumDone(D) == IF D = {} THEN 0 ELSE LET i == CHOOSE x \in D : TRUE IN ops[i].done + SumDone(D \ {i})
Held == Cardinality(cached) + Cardinality(LimboPages) + SumDone(DOMAIN ops)
(* a released range enters the cache; what exceeds the limit is then unbacked *)
ReleaseBegin(id, a, n) ==
  /\ ~Ops(id) /\ n > 0 /\ Ival(a, n) \subseteq inuse
  /\ inuse' = inuse \ Ival(a, n) /\ cached' = cached \cup Ival(a, n)
  /\ LET full == Cardinality(cached) + n > limit IN
       fills' = fills + (IF full THEN 0 ELSE 1) /\ overs' = overs + (IF full THEN 1 ELSE 0)
  /\ AddOp(id, [kind |-> "rel", ask |-> 0, size |-> Cardinality(cached) + n, held |-> Held + n, lim |-> limit, done |-> 0, failed |-> FALSE, nested |-> FALSE])
  /\ UNCHANGED <<limbo, unbacked, sys, limit, hits, misses, fast, periodic>>
CachedBegin(id, k) ==
  /\ ~Ops(id)
  /\ AddOp(id, [kind |-> "rcp", ask |-> k, size |-> Cardinality(cached), held |-> Held, lim |-> limit, done |-> 0, failed |-> FALSE, nested |-> FALSE])
  /\ UNCHANGED <<inuse, cached, limbo, unbacked, sys, limit, hits, misses, fills, overs, fast, periodic>>
(* the outcome of the unback is decided when it is done; a failed range stays in the cache *)
UnbackBegin(id, a, n, ok, newlimit) ==
  /\ Ops(id) /\ ~ \E x \in limbo : x[1] = id
  /\ n > 0 /\ Ival(a, n) \subseteq cached
  /\ limit' = newlimit /\ MayShrinkTo(newlimit, ops[id].held)
  /\ (ops[id].kind = "rel" /\ ~ops[id].nested => Cardinality(cached) - n >= newlimit)      \* never below what is asked
  /\ (ops[id].kind = "rcp" /\ ~ops[id].nested => \/ Cardinality(cached) - n >= newlimit
                                 \/ ops[id].done + n <= ops[id].ask)
  /\ cached' = cached \ Ival(a, n)
  /\ limbo' = limbo \cup { <<id, a, n, ok>> }
  /\ UNCHANGED <<inuse, unbacked, sys, ops, hits, misses, fills, overs, fast, periodic>>
UnbackDone(id) ==
  \E x \in limbo :
    /\ x[1] = id
    /\ limbo' = limbo \ {x}
    /\ IF x[4] THEN unbacked' = unbacked \cup Ival(x[2], x[3]) /\ cached' = cached
               ELSE cached' = cached \cup Ival(x[2], x[3]) /\ unbacked' = unbacked
    /\ ops' = [ops EXCEPT ![id].done = @ + (IF x[4] THEN x[3] ELSE 0), ![id].failed = @ \/ ~x[4]]
    /\ UNCHANGED <<inuse, sys, limit, hits, misses, fills, overs, fast, periodic>>
(* other operations ran while id was unbacking: sizes it computed earlier may be stale *)
ReleaseEnd(id, newlimit) ==
  /\ Ops(id) /\ ops[id].kind = "rel" /\ ~ \E x \in limbo : x[1] = id
  /\ MayShrinkTo(newlimit, ops[id].held) /\ limit' = newlimit
  /\ (~ops[id].failed => Cardinality(cached) <= (IF ops[id].nested THEN Max2(newlimit, ops[id].lim) ELSE newlimit))
  /\ fast' = fast + ops[id].done
  /\ DelOp(id)
  /\ UNCHANGED <<inuse, cached, limbo, unbacked, sys, hits, misses, fills, overs, periodic>>
CachedEnd(id, r, newlimit) ==
  /\ Ops(id) /\ ops[id].kind = "rcp" /\ ~ \E x \in limbo : x[1] = id
  /\ MayShrinkTo(newlimit, ops[id].held) /\ limit' = newlimit
  /\ r = ops[id].done
  /\ (~ops[id].failed /\ ~ops[id].nested => r >= Min2(ops[id].ask, ops[id].size))
  /\ periodic' = periodic + r
  /\ DelOp(id)
  /\ UNCHANGED <<inuse, cached, limbo, unbacked, sys, hits, misses, fills, overs, fast>>

TypeSound ==
  /\ inuse \cap cached = {} /\ inuse \cap unbacked = {} /\ cached \cap unbacked = {}
  /\ LimboPages \cap (inuse \cup cached \cup unbacked) = {}
  /\ sys = inuse \cup cached \cup unbacked \cup LimboPages
LimitSound == limit >= Base
=============================================================================
