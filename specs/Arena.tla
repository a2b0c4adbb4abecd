------------------------------- MODULE Arena -------------------------------
(* The metadata arena and an object allocator on top of it.  Memory comes from the system in regions of Inc units  *)
(* (or of one oversized request); blocks are carved from the current area; what remains of an area that is too     *)
(* small goes to a short free list or is given up.  Addresses are units; a list entry needs an aligned start.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Inc, Sizes, Aligns, MinBlock, BlockAlign, MaxFree, MaxRegions, ObjSize
VARIABLES regions,     \* <<base, length>> obtained from the system
          area,        \* <<start, available>>
          free,        \* list of <<start, size>>
          live,        \* blocks handed out <<start, size>>
          lost,        \* alignment gaps and given-up pieces that no request will get: [start, size, kind]
          alloc, unavail, listed, nonres,
          objs, ofree, otot      \* objects in use, the object free list, objects ever carved
vars == <<regions, area, free, live, lost, alloc, unavail, listed, nonres, objs, ofree, otot>>
Gap(a, al) == (al - (a % al)) % al
Max(a, b) == IF a > b THEN a ELSE b
Units(b) == b[1]..(b[1] + b[2] - 1)
Init == /\ regions = {} /\ area = <<0, 0>> /\ free = <<>> /\ live = {} /\ lost = {}
        /\ alloc = 0 /\ unavail = 0 /\ listed = 0 /\ nonres = 0 /\ objs = {} /\ ofree = <<>> /\ otot = 0
\* the remaining area: to the list or given up
Stash(ar, fr) ==
  LET g == Gap(ar[1], BlockAlign) IN
  IF ar[2] = 0 THEN [free |-> fr, un |-> 0, gaps |-> {}]
  ELSE IF Len(fr) < MaxFree /\ ar[2] >= g + MinBlock
       THEN [free |-> <<<<ar[1] + g, ar[2] - g>>>> \o fr, un |-> g, gaps |-> IF g = 0 THEN {} ELSE {<<ar[1], g>>}]
       ELSE [free |-> fr, un |-> ar[2], gaps |-> {<<ar[1], ar[2]>>}]
Fits(b, n, al) == b[2] >= Gap(b[1], al) + n
FirstFit(fr, n, al) == {i \in 1..Len(fr) : Fits(fr[i], n, al) /\ \A j \in 1..(i - 1) : ~Fits(fr[j], n, al)}
Without(fr, i) == SubSeq(fr, 1, i - 1) \o SubSeq(fr, i + 1, Len(fr))
NewBase == Cardinality(regions) * 64
\* the area the request is carved from, after AllocSlow if needed
Prepared(n, al) ==
  IF Fits(area, n, al) THEN [area |-> area, free |-> free, un |-> 0, gaps |-> {}, reg |-> {}]
  ELSE LET s == Stash(area, free) IN
       IF FirstFit(s.free, n, al) # {}
       THEN LET i == CHOOSE i \in FirstFit(s.free, n, al) : TRUE
            IN [area |-> s.free[i], free |-> Without(s.free, i), un |-> s.un, gaps |-> s.gaps, reg |-> {}]
       ELSE LET len == Max(Inc, n) IN [area |-> <<NewBase, len>>, free |-> s.free, un |-> s.un, gaps |-> s.gaps, reg |-> {<<NewBase, len>>}]
Sum(fr) == LET S[i \in 0..Len(fr)] == IF i = 0 THEN 0 ELSE S[i - 1] + fr[i][2] IN S[Len(fr)]
Carve(n, al) ==
  LET p == Prepared(n, al)
      g == Gap(p.area[1], al)
      at == p.area[1] + g
  IN /\ (p.reg # {} => Cardinality(regions) < MaxRegions)
     /\ regions' = regions \cup p.reg /\ free' = p.free
     /\ area' = <<at + n, p.area[2] - g - n>>
     /\ live' = live \cup {<<at, n>>}
     /\ lost' = lost \cup p.gaps \cup (IF g = 0 THEN {} ELSE {<<p.area[1], g>>})
     /\ alloc' = alloc + g + n /\ unavail' = unavail + p.un
     \* kept incrementally in the implementation
     /\ listed' = listed + (Sum(p.free) - Sum(free))
Alloc(n, al) == Carve(n, al) /\ UNCHANGED <<nonres, objs, ofree, otot>>
New ==
  IF ofree # <<>>
  THEN /\ objs' = objs \cup {Head(ofree)} /\ ofree' = Tail(ofree)
       /\ UNCHANGED <<regions, area, free, live, lost, alloc, unavail, listed, nonres, otot>>
  ELSE /\ Carve(ObjSize, BlockAlign) /\ otot' = otot + 1
       /\ objs' = objs \cup (live' \ live) /\ UNCHANGED <<nonres, ofree>>
Delete(o) == /\ o \in objs /\ objs' = objs \ {o} /\ ofree' = <<o>> \o ofree
             /\ UNCHANGED <<regions, area, free, live, lost, alloc, unavail, listed, nonres, otot>>
\* a slab is given back to the system, or taken into use again
Nonresident(o) == /\ nonres = 0 /\ o \in live /\ o[2] > 2 /\ nonres' = o[2] /\ alloc' = alloc - o[2]
                  /\ UNCHANGED <<regions, area, free, live, lost, unavail, listed, objs, ofree, otot>>
Resident == /\ nonres > 0 /\ nonres' = 0 /\ alloc' = alloc + nonres
            /\ UNCHANGED <<regions, area, free, live, lost, unavail, listed, objs, ofree, otot>>
Next == \/ \E n \in Sizes, al \in Aligns : Alloc(n, al)
        \/ New \/ \E o \in objs : Delete(o)
        \/ \E o \in live : Nonresident(o)
        \/ Resident
Spec == Init /\ [][Next]_vars
\* everything obtained from the system is exactly one thing
Pieces == live \cup lost \cup {free[i] : i \in 1..Len(free)} \cup (IF area[2] > 0 THEN {area} ELSE {})
Disjoint == \A a, b \in Pieces : a # b => Units(a) \cap Units(b) = {}
Inside == \A a \in Pieces : \E r \in regions : Units(a) \subseteq Units(r)
Obtained == LET S[s \in SUBSET regions] == IF s = {} THEN 0 ELSE LET r == CHOOSE r \in s : TRUE IN r[2] + S[s \ {r}] IN S[regions]
Identity == alloc + nonres + unavail + area[2] + listed = Obtained
Listed == listed = Sum(free) /\ Len(free) <= MaxFree /\ \A i \in 1..Len(free) : free[i][1] % BlockAlign = 0 /\ free[i][2] >= MinBlock
Objects == /\ objs \subseteq live /\ otot = Cardinality(objs) + Len(ofree)
           /\ \A i \in 1..Len(ofree) : ofree[i] \in live \ objs /\ \A j \in 1..Len(ofree) : i # j => ofree[i] # ofree[j]
Inv == Disjoint /\ Inside /\ Identity /\ Listed /\ Objects
=============================================================================
