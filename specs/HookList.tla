------------------------------ MODULE HookList ------------------------------
(***************************************************************************)
(* The hook table: synchronized add/remove, lock-free multi-step traversal.*)
(* Each store another thread can observe is one action.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Hooks, Slots, MaxOps
NoHook == "none"
VARIABLES data, end, lock, pc, loc, ops,
          reg,            \* registrations complete and not being removed (ghost): hook -> count
          start, removed, added, got   \* ghosts of a running traversal
vars == <<data, end, lock, pc, loc, ops, reg, start, removed, added, got>>
Idx == 1 .. Slots
Zero == [h \in Hooks |-> 0]
Init == /\ data = [i \in Idx |-> NoHook] /\ end = 0 /\ lock = NoHook
        /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> [h |-> NoHook, i |-> 0, e |-> 0]]
        /\ ops = [t \in Threads |-> 0]
        /\ reg = Zero /\ start = [t \in Threads |-> Zero] /\ removed = [t \in Threads |-> Zero]
        /\ added = [t \in Threads |-> Zero] /\ got = [t \in Threads |-> Zero]
Free == { i \in Idx : data[i] = NoHook }
First(S) == CHOOSE i \in S : \A j \in S : i <= j
CanStart(t) == pc[t] = "idle" /\ ops[t] < MaxOps
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
BumpAll(f, h) == [u \in Threads |-> [f[u] EXCEPT ![h] = @ + 1]]

AddStore(t, h) ==
  /\ CanStart(t) /\ lock = NoHook /\ Free # {}
  /\ LET i == First(Free) IN
       /\ data' = [data EXCEPT ![i] = h]
       /\ loc' = [loc EXCEPT ![t] = [h |-> h, i |-> i, e |-> end]]
  /\ lock' = t /\ Go(t, "addend") /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ added' = BumpAll(added, h)
  /\ UNCHANGED <<end, reg, start, removed, got>>
AddFull(t) == /\ CanStart(t) /\ lock = NoHook /\ Free = {} /\ ops' = [ops EXCEPT ![t] = @ + 1]
              /\ UNCHANGED <<data, end, lock, pc, loc, reg, start, removed, added, got>>
AddEnd(t) == /\ pc[t] = "addend"
             /\ end' = IF loc[t].e < loc[t].i THEN loc[t].i ELSE end
             /\ lock' = NoHook /\ Go(t, "idle")
             /\ reg' = [reg EXCEPT ![loc[t].h] = @ + 1]
             /\ UNCHANGED <<data, loc, ops, start, removed, added, got>>
RemoveClear(t, h) ==
  /\ CanStart(t) /\ lock = NoHook
  /\ LET c == { i \in 1 .. end : data[i] = h } IN
       /\ c # {}
       /\ data' = [data EXCEPT ![First(c)] = NoHook]
       /\ loc' = [loc EXCEPT ![t] = [h |-> h, i |-> First(c), e |-> end]]
  /\ lock' = t /\ Go(t, "remend") /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ reg' = [reg EXCEPT ![h] = @ - 1] /\ removed' = BumpAll(removed, h)
  /\ UNCHANGED <<end, start, added, got>>
RemoveEnd(t) ==
  /\ pc[t] = "remend"
  /\ end' = IF loc[t].e = loc[t].i
              THEN LET c == { j \in 1 .. loc[t].i - 1 : data[j] # NoHook } IN
                   IF c = {} THEN 0 ELSE CHOOSE j \in c : \A k \in c : k <= j
              ELSE end
  /\ lock' = NoHook /\ Go(t, "idle")
  /\ UNCHANGED <<data, loc, ops, reg, start, removed, added, got>>
TravStart(t) ==
  /\ CanStart(t) /\ ops' = [ops EXCEPT ![t] = @ + 1]
  /\ loc' = [loc EXCEPT ![t] = [h |-> NoHook, i |-> 1, e |-> end]] /\ Go(t, "trav")
  /\ start' = [start EXCEPT ![t] = reg] /\ got' = [got EXCEPT ![t] = Zero]
  /\ removed' = [removed EXCEPT ![t] = Zero]
  \* registrations in progress (stored, not yet complete) may be seen
  /\ added' = [added EXCEPT ![t] = [h \in Hooks |-> Cardinality({ i \in Idx : data[i] = h }) - reg[h]]]
  /\ UNCHANGED <<data, end, lock, reg>>
TravRead(t) ==
  /\ pc[t] = "trav" /\ loc[t].i <= loc[t].e
  /\ got' = IF data[loc[t].i] = NoHook THEN got ELSE [got EXCEPT ![t][data[loc[t].i]] = @ + 1]
  /\ loc' = [loc EXCEPT ![t].i = @ + 1]
  /\ UNCHANGED <<data, end, lock, pc, ops, reg, start, removed, added>>
TravDone(t) == /\ pc[t] = "trav" /\ loc[t].i > loc[t].e /\ Go(t, "idle")
               /\ UNCHANGED <<data, end, lock, loc, ops, reg, start, removed, added, got>>
Next == \E t \in Threads :
          \/ \E h \in Hooks : AddStore(t, h) \/ RemoveClear(t, h)
          \/ AddFull(t) \/ AddEnd(t) \/ RemoveEnd(t) \/ TravStart(t) \/ TravRead(t) \/ TravDone(t)
Spec == Init /\ [][Next]_vars

(* Properties *)
EndCovers == \A i \in Idx : data[i] # NoHook => i <= end \/ (lock # NoHook /\ pc[lock] = "addend" /\ loc[lock].i = i)
RegMatches == \A h \in Hooks : reg[h] + (IF lock # NoHook /\ pc[lock] = "addend" /\ loc[lock].h = h THEN 1 ELSE 0)
                               = Cardinality({ i \in Idx : data[i] = h })
(* what a finished traversal returns: every registration that lasted, nothing never registered *)
TravSound == \A t \in Threads : (pc[t] = "trav" /\ loc[t].i > loc[t].e) =>
               \A h \in Hooks : /\ got[t][h] >= start[t][h] - removed[t][h]
                                /\ got[t][h] <= start[t][h] + added[t][h]
Sym == Permutations(Threads)
=============================================================================
