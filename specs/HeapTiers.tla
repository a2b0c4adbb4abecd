------------------------------ MODULE HeapTiers ------------------------------
(***************************************************************************)
(* How the tiers move memory (design level), refining Heap.                *)
(* Pages of a small heap are carved into spans of equal objects, or handed *)
(* out whole.  An object is always in exactly one place: with a user, in   *)
(* a CPU's cache, in the transfer cache, or on its span's free list.       *)
(*   pg[p]    state of page p: "none" (not obtained), "free", "released",  *)
(*            "large" (one block), "span" (carved)                         *)
(*   where[o] for objects of carved pages; o = <<p, k>>, k in 0..K-1       *)
(*   owner    live ids -> objects or pages                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS P, K, Cpus, Ids, CapCpu, CapTransfer
VARIABLES pg, where, own, hdata
tvars == <<pg, where, own, hdata>>
Pages == 0 .. P - 1
Objs == Pages \X (0 .. K - 1)
NoPlace == <<"nowhere">>
Span == <<"span">>
Transfer == <<"transfer">>
Cpu(c) == <<"cpu", c>>
User(i) == <<"user", i>>
TInit == /\ pg = [p \in Pages |-> "none"] /\ where = [o \in Objs |-> NoPlace] /\ own = <<>> /\ hdata = <<>>
In(pl) == { o \in Objs : where[o] = pl }
PagesOf(f) == { p \in Pages : f[p] }

Grow == \E p \in Pages : pg[p] = "none" /\ pg' = [pg EXCEPT ![p] = "released"] /\ UNCHANGED <<where, own, hdata>>
Back == \E p \in Pages : pg[p] = "released" /\ pg' = [pg EXCEPT ![p] = "free"] /\ UNCHANGED <<where, own, hdata>>
ReleasePage == \E p \in Pages : pg[p] = "free" /\ pg' = [pg EXCEPT ![p] = "released"] /\ UNCHANGED <<where, own, hdata>>
Carve == \E p \in Pages : /\ pg[p] = "free" /\ pg' = [pg EXCEPT ![p] = "span"]
                          /\ where' = [o \in Objs |-> IF o[1] = p THEN Span ELSE where[o]] /\ UNCHANGED <<own, hdata>>
(* a span goes back exactly when all its objects are on its list *)
Return == \E p \in Pages : /\ pg[p] = "span" /\ \A k \in 0 .. K - 1 : where[<<p, k>>] = Span
                           /\ pg' = [pg EXCEPT ![p] = "free"]
                           /\ where' = [o \in Objs |-> IF o[1] = p THEN NoPlace ELSE where[o]] /\ UNCHANGED <<own, hdata>>
Move(from, to, cap) == \E o \in In(from) : Cardinality(In(to)) < cap /\ where' = [where EXCEPT ![o] = to] /\ UNCHANGED <<pg, own, hdata>>
Fetch == Move(Span, Transfer, CapTransfer) \/ \E c \in Cpus : Move(Transfer, Cpu(c), CapCpu) \/ Move(Span, Cpu(c), CapCpu)
Flush == Move(Transfer, Span, P * K) \/ \E c \in Cpus : Move(Cpu(c), Transfer, CapTransfer) \/ Move(Cpu(c), Span, P * K)
Put(f, i, v) == [j \in DOMAIN f \cup {i} |-> IF j = i THEN v ELSE f[j]]
Del(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
AllocSmall == \E c \in Cpus, o \in Objs, i \in Ids :
   /\ i \notin DOMAIN own /\ where[o] = Cpu(c)
   /\ where' = [where EXCEPT ![o] = User(i)] /\ own' = Put(own, i, o) /\ hdata' = Put(hdata, i, 0) /\ UNCHANGED pg
FreeSmall == \E c \in Cpus, i \in DOMAIN own :
   /\ own[i][2] >= 0 /\ Cardinality(In(Cpu(c))) < CapCpu
   /\ where' = [where EXCEPT ![own[i]] = Cpu(c)] /\ own' = Del(own, i) /\ hdata' = Del(hdata, i) /\ UNCHANGED pg
AllocLarge == \E p \in Pages, i \in Ids :
   /\ i \notin DOMAIN own /\ pg[p] \in {"free", "released"}
   /\ pg' = [pg EXCEPT ![p] = "large"] /\ own' = Put(own, i, <<p, -1>>) /\ hdata' = Put(hdata, i, 0) /\ UNCHANGED where
FreeLarge == \E i \in DOMAIN own : own[i][2] = -1 /\ pg' = [pg EXCEPT ![own[i][1]] = "free"] /\ own' = Del(own, i) /\ hdata' = Del(hdata, i) /\ UNCHANGED where
Write == \E i \in DOMAIN own : hdata' = [hdata EXCEPT ![i] = 1 - @] /\ UNCHANGED <<pg, where, own>>
TNext == Grow \/ Back \/ ReleasePage \/ Carve \/ Return \/ Fetch \/ Flush \/ AllocSmall \/ FreeSmall \/ AllocLarge \/ FreeLarge \/ Write
TSpec == TInit /\ [][TNext]_tvars

Bounds(x) == IF x[2] = -1 THEN [lo |-> <<x[1], 0>>, hi |-> <<x[1] + 1, 0>>, req |-> 1, cap |-> K, align |-> 0]
                          ELSE [lo |-> <<x[1], x[2]>>, hi |-> <<x[1], x[2] + 1>>, req |-> 1, cap |-> 1, align |-> 0]
liveOf == [i \in DOMAIN own |-> Bounds(own[i])]
H == INSTANCE Heap WITH live <- liveOf, data <- hdata
HNext == \/ \E i \in Ids : \E x \in Pages \X (-1 .. K - 1) : H!Alloc(i, Bounds(x))
         \/ \E i \in DOMAIN own : H!Free(i) \/ H!Fill(i, 0) \/ H!Fill(i, 1)
Refines == H!Init /\ [][HNext]_<<liveOf, hdata>>
OnePlace == /\ \A i \in DOMAIN own : own[i][2] >= 0 => where[own[i]] = User(i)
            /\ \A o \in Objs : where[o][1] = "user" => where[o][2] \in DOMAIN own /\ own[where[o][2]] = o
            /\ \A o \in Objs : (where[o] = NoPlace) = (pg[o[1]] # "span")
            /\ \A i \in DOMAIN own : own[i][2] = -1 => pg[own[i][1]] = "large"
            /\ H!AllDisjoint
(* released pages are never anyone's *)
ReleasedUnused == \A p \in Pages : pg[p] \in {"released", "none"} => \A i \in DOMAIN own : own[i][1] # p
=============================================================================
