-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The allocator as its callers see it: a set of live blocks.              *)
(*   live[id]    [lo, hi) the bytes the owner may use, and what was asked  *)
(*   data[id]    what the owner last wrote into the block (0: nothing yet) *)
(* Addresses are ordered pairs <<high, low>>.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES live, data
vars == <<live, data>>

Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Disjoint(b, c) == Leq(b.hi, c.lo) \/ Leq(c.hi, b.lo)
Without(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]
With(f, id, v) == [i \in DOMAIN f \cup {id} |-> IF i = id THEN v ELSE f[i]]

Init == live = <<>> /\ data = <<>>

(* a successful allocation of b.req bytes with alignment b.align (0: the default) *)
Alloc(id, b) ==
  /\ id \notin DOMAIN live
  /\ Leq(b.lo, b.hi)                       \* an empty request may get no usable byte, but an address of its own
  /\ b.cap >= b.req
  /\ \A i \in DOMAIN live : Disjoint(b, live[i]) /\ b.lo # live[i].lo
  /\ live' = With(live, id, b)
  /\ data' = With(data, id, 0)
Fill(id, tag) ==
  /\ id \in DOMAIN live
  /\ data' = [data EXCEPT ![id] = tag]
  /\ UNCHANGED live
Read(id, seen) ==
  /\ id \in DOMAIN live
  /\ seen = data[id]
  /\ UNCHANGED vars
Free(id) ==
  /\ id \in DOMAIN live
  /\ live' = Without(live, id)
  /\ data' = Without(data, id)

AllDisjoint == \A i, j \in DOMAIN live : i # j => Disjoint(live[i], live[j])
=============================================================================
