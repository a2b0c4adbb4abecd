----------------------------- MODULE HugeCacheMC -----------------------------
(* Bounded model: N huge pages, at most MaxOps overlapping operations; statistics are not part of the view. *)
EXTENDS HugeCache
CONSTANTS N, MaxReq, MaxOps
Ids == 1 .. MaxOps
Lims == Base .. N
Next ==
  \/ \E n \in 1 .. MaxReq, a \in 0 .. N - 1 : a + n <= N /\
       ( \/ GetHit(n, a)
         \/ \E nl \in Lims : GetMiss(n, a, 0, 0, nl)
         \/ \E s \in 0 .. N - 1, m \in 1 .. MaxReq, nl \in Lims : s + m <= N /\ GetMiss(n, a, s, m, nl)
         \/ ReleaseUnbacked(a, n)
         \/ \E i \in Ids : ReleaseBegin(i, a, n)
         \/ \E i \in Ids, ok \in BOOLEAN, nl \in Lims : UnbackBegin(i, a, n, ok, nl) )
  \/ \E n \in 1 .. MaxReq : GetFail(n)
  \/ \E i \in Ids, k \in {0, 1, N} : CachedBegin(i, k)
  \/ \E i \in Ids : UnbackDone(i)
  \/ \E i \in Ids, nl \in Lims : ReleaseEnd(i, nl)
  \/ \E i \in Ids, r \in 0 .. N, nl \in Lims : CachedEnd(i, r, nl)
Spec == Init /\ [][Next]_vars
Bounded == \A i \in DOMAIN ops : ops[i].done <= N
View == <<inuse, cached, limbo, unbacked, sys, limit, ops>>
(* a page in use stays in use until its owner releases it; never served twice *)
OwnerKeeps == [][ \A p \in inuse : p \in inuse' \/ p \in cached' \/ p \in unbacked' ]_vars
NeverTwice == [][ \A p \in inuse' \ inuse : p \in cached \/ p \in unbacked \/ p \notin sys ]_vars
LimitMoves == [][ (limit' > limit => misses' = misses + 1) ]_vars
=============================================================================
