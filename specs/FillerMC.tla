-------------------------------- MODULE FillerMC --------------------------------
(* The filler's incremental totals and list memberships, maintained as in the allocator, against the     *)
(* pages themselves; huge pages may be held by a background treatment while their pages come and go.     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS PH, HPs, Mode, Sizes
F == INSTANCE Filler
VARIABLES T, where, size, pa, unm, nur, nup, nwr, nb, held
\* T[h]: page state or none; where[h]: the list it sits in, "out" when not the filler's, "freed" when empty but held
vars == <<T, where, size, pa, unm, nur, nup, nwr, nb, held>>
None == [none |-> TRUE]
In(h) == where[h] \notin {"out", "freed"}
Init == /\ T = [h \in HPs |-> None] /\ where = [h \in HPs |-> "out"] /\ size = 0
        /\ pa = [d \in BOOLEAN |-> 0] /\ unm = 0 /\ nur = [d \in BOOLEAN |-> 0] /\ nup = [d \in BOOLEAN |-> 0] /\ nwr = [d \in BOOLEAN |-> 0]
        /\ nb = 0 /\ held = {}
\* take t off the list its state says it is on, then put t2 on its list
Move(h, t, t2) ==
  LET k == F!Kind(t, Mode)  k2 == F!Kind(t2, Mode)  d == t.dense IN
  /\ Assert(where[h] = k, "list")
  /\ where' = [where EXCEPT ![h] = k2]
  /\ nur' = [nur EXCEPT ![d] = @ - (IF k = "released" THEN t.nu ELSE 0) + (IF k2 = "released" THEN t2.nu ELSE 0)]
  /\ nup' = [nup EXCEPT ![d] = @ - (IF k = "partial" THEN t.nu ELSE 0) + (IF k2 = "partial" THEN t2.nu ELSE 0)]
  /\ T' = [T EXCEPT ![h] = t2]
Contribute(h, n, dense, don) ==
  /\ where[h] = "out" /\ ~(dense /\ don) /\ (dense => n = 1)
  /\ LET t == [F!Get(F!New(dense, don), 0, n, 0) EXCEPT !.don = don] IN
     T' = [T EXCEPT ![h] = t] /\ where' = [where EXCEPT ![h] = F!Kind(t, Mode)]
  /\ size' = size + 1 /\ pa' = [pa EXCEPT ![dense] = @ + n] /\ UNCHANGED <<unm, nur, nup, nwr, nb, held>>
Get(h, a, n) ==
  /\ In(h) /\ F!CanGet(T[h], a, n) /\ (T[h].dense => n = 1)
  /\ LET t == T[h]
         was == F!Kind(t, Mode) \in {"partial", "released"}
         t1 == F!Get(t, a, n, 0)
         mark == was /\ t1.rel = {} /\ ~t.wr
         t2 == IF mark THEN [t1 EXCEPT !.wr = TRUE] ELSE t1 IN
     /\ Move(h, t, t2)
     /\ unm' = unm - Cardinality(t.rel \cap F!Pages(a, n))
     /\ nwr' = [nwr EXCEPT ![t.dense] = @ + (IF mark THEN 1 ELSE 0)]
     /\ pa' = [pa EXCEPT ![t.dense] = @ + n]
  /\ UNCHANGED <<size, nb, held>>
Put(h) ==
  \E r \in T[h].live :
  LET t == T[h]  t2 == F!Put(t, r[1], r[2], 0)  k == F!Kind(t, Mode)  d == t.dense IN
  /\ Assert(where[h] = k, "list")
  /\ pa' = [pa EXCEPT ![d] = @ - r[2]]
  /\ IF t2.nu > 0
     THEN Move(h, t, t2) /\ UNCHANGED <<size, unm, nwr>>
     ELSE /\ size' = size - 1 /\ unm' = unm - F!NRel(t2)
          /\ nwr' = [nwr EXCEPT ![d] = @ - (IF t.wr THEN 1 ELSE 0)]
          /\ nur' = [nur EXCEPT ![d] = @ - (IF k = "released" THEN t.nu ELSE 0)]
          /\ nup' = [nup EXCEPT ![d] = @ - (IF k = "partial" THEN t.nu ELSE 0)]
          /\ where' = [where EXCEPT ![h] = IF h \in held THEN "freed" ELSE "out"]
          /\ T' = [T EXCEPT ![h] = IF h \in held THEN [t2 EXCEPT !.wr = FALSE] ELSE None]
  /\ UNCHANGED <<nb, held>>
\* release the free pages of h, some of the system calls failing
Release(h) ==
  \E S \in SUBSET F!RunsOf(F!Releasable(T[h])) :
  LET t == T[h]  P == UNION {F!Pages(r[1], r[2]) : r \in S}  t1 == F!Release(t, P)
      t2 == IF t1.rel # {} THEN [t1 EXCEPT !.wr = FALSE] ELSE t1 IN
  /\ F!Releasable(t) # {}
  /\ Move(h, t, t2) /\ unm' = unm + Cardinality(P)
  /\ nwr' = [nwr EXCEPT ![t.dense] = @ - (IF t.wr /\ ~t2.wr THEN 1 ELSE 0)]
  /\ UNCHANGED <<size, pa, nb, held>>
Hold(h) == In(h) /\ h \notin held /\ held' = held \cup {h} /\ UNCHANGED <<T, where, size, pa, unm, nur, nup, nwr, nb>>
\* the treatment of h ends: it was emptied meanwhile; or it is intact; or its free pages are released / found missing
Finish(h) ==
  /\ h \in held /\ held' = held \ {h}
  /\ IF where[h] = "freed"
     THEN T' = [T EXCEPT ![h] = None] /\ where' = [where EXCEPT ![h] = "out"] /\ UNCHANGED <<unm, nur, nup>>
     ELSE LET t == T[h] IN
          \/ UNCHANGED <<T, where, unm, nur, nup>>
          \/ Mode /\ t.brk /\ Move(h, t, [t EXCEPT !.brk = FALSE, !.don = FALSE]) /\ UNCHANGED unm
          \/ Mode /\ \E P \in SUBSET F!Releasable(t) : Move(h, t, [F!Release(t, P) EXCEPT !.brk = TRUE]) /\ unm' = unm + Cardinality(P)
          \/ LET P == F!Releasable(t) IN P # {} /\ Move(h, t, F!Release(t, P)) /\ unm' = unm + Cardinality(P)
  /\ UNCHANGED <<size, pa, nwr, nb>>
Next == \E h \in HPs :
        \/ \E n \in Sizes, dense, don \in BOOLEAN : Contribute(h, n, dense, don)
        \/ (In(h) /\ \E n \in Sizes, a \in 0 .. PH - 1 : Get(h, a, n))
        \/ (In(h) /\ Put(h))
        \/ (In(h) /\ Release(h)) \/ Hold(h) \/ Finish(h)
Spec == Init /\ [][Next]_vars
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})
Ins == {h \in HPs : In(h)}
Sum(S, Op(_)) == SumF([h \in S |-> Op(T[h])], S)
Totals ==
  /\ size = Cardinality(Ins)
  /\ unm = Sum(Ins, F!NRel)
  /\ \A d \in BOOLEAN :
       LET D == {h \in Ins : T[h].dense = d} IN
       /\ pa[d] = Sum(D, LAMBDA t : t.nu)
       /\ nur[d] = Sum({h \in D : where[h] = "released"}, LAMBDA t : t.nu)
       /\ nup[d] = Sum({h \in D : where[h] = "partial"}, LAMBDA t : t.nu)
       /\ nwr[d] = Cardinality({h \in D : T[h].wr})
Pieces == \A h \in Ins :
  LET t == T[h] IN
  /\ t.nu > 0 /\ t.nu = PH - Cardinality(F!FreePages(t)) /\ t.rel \subseteq F!FreePages(t)
  /\ \A r, s \in t.live : r = s \/ F!Pages(r[1], r[2]) \cap F!Pages(s[1], s[2]) = {}
  /\ UNION {F!Pages(r[1], r[2]) : r \in t.live} = (0 .. PH - 1) \ F!FreePages(t)
  /\ F!RunsOf(F!FreePages(t)) = t.free
  /\ where[h] = F!Kind(t, Mode) /\ (t.don => t.rel = {})
==================================================================================
