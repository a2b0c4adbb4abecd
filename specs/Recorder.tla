------------------------------- MODULE Recorder -----------------------------
(* The sample registry at lock/compare-and-swap granularity: an append-only *)
(* list of all records, a circular graveyard of reusable ones, iteration    *)
(* that locks one record at a time.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mut, Iter, MaxIds
G == 100
Nul == 0
Nodes == 1 .. MaxIds
Ids == 1 .. MaxIds
VARIABLES all, nxt, dead, data, fresh, glock, nlock, pc, ids, owner, phase, must, may, seen
vars == <<all, nxt, dead, data, fresh, glock, nlock, pc, ids, owner, phase, must, may, seen>>
Procs == Mut \cup Iter
Init == /\ all = Nul /\ nxt = [n \in Nodes |-> Nul] /\ dead = [n \in Nodes \cup {G} |-> IF n = G THEN G ELSE Nul]
        /\ data = [n \in Nodes |-> 0] /\ fresh = 1 /\ glock = Nul /\ nlock = [n \in Nodes |-> Nul]
        /\ pc = [p \in Procs |-> [k |-> "idle"]] /\ ids = 0
        /\ owner = [i \in Ids |-> Nul]
        \* phase of a sample: none, reg (registering), live, unreg, gone
        /\ phase = [i \in Ids |-> "none"]
        /\ must = [p \in Iter |-> {}] /\ may = [p \in Iter |-> {}] /\ seen = [p \in Iter |-> <<>>]
Goto(p, r) == pc' = [pc EXCEPT ![p] = r]
Sh == <<all, nxt, dead, data, fresh>>
Gh == <<owner, phase, must, may, seen>>
\* -------- registration
RegBegin(p) == /\ p \in Mut /\ pc[p].k = "idle" /\ ids < MaxIds /\ ids' = ids + 1
               /\ Goto(p, [k |-> "pop", id |-> ids + 1])
               /\ phase' = [phase EXCEPT ![ids + 1] = "reg"]
               /\ may' = [q \in Iter |-> may[q] \cup {ids + 1}]
               /\ UNCHANGED <<Sh, glock, nlock, owner, must, seen>>
Pop(p) == /\ pc[p].k = "pop" /\ glock = Nul
          /\ IF dead[G] = G
               THEN Goto(p, [k |-> "new", id |-> pc[p].id]) /\ glock' = glock
               ELSE Goto(p, [k |-> "raise", id |-> pc[p].id, s |-> dead[G]]) /\ glock' = p
          /\ UNCHANGED <<Sh, nlock, ids, Gh>>
Live(p, s) == /\ owner' = [owner EXCEPT ![pc[p].id] = s] /\ phase' = [phase EXCEPT ![pc[p].id] = "live"]
              /\ UNCHANGED <<must, may, seen>>
Raise(p) == LET s == pc[p].s IN
            /\ pc[p].k = "raise" /\ nlock[s] = Nul
            /\ dead' = [dead EXCEPT ![G] = dead[s], ![s] = Nul]
            /\ data' = [data EXCEPT ![s] = pc[p].id]
            /\ glock' = Nul /\ Goto(p, [k |-> "idle"]) /\ Live(p, s)
            /\ UNCHANGED <<all, nxt, fresh, nlock, ids>>
New(p) == /\ pc[p].k = "new" /\ fresh <= MaxIds
          /\ data' = [data EXCEPT ![fresh] = pc[p].id] /\ nxt' = [nxt EXCEPT ![fresh] = all]
          /\ fresh' = fresh + 1 /\ Goto(p, [k |-> "cas", id |-> pc[p].id, s |-> fresh])
          /\ UNCHANGED <<all, dead, glock, nlock, ids, Gh>>
Cas(p) == LET s == pc[p].s IN
          /\ pc[p].k = "cas"
          /\ IF all = nxt[s] THEN all' = s /\ nxt' = nxt /\ Goto(p, [k |-> "idle"]) /\ Live(p, s)
             ELSE nxt' = [nxt EXCEPT ![s] = all] /\ UNCHANGED <<all, pc, Gh>>
          /\ UNCHANGED <<dead, data, fresh, glock, nlock, ids>>
\* -------- unregistration
UnregBegin(p) == \E i \in Ids : /\ p \in Mut /\ pc[p].k = "idle" /\ phase[i] = "live"
                 /\ phase' = [phase EXCEPT ![i] = "unreg"] /\ must' = [q \in Iter |-> must[q] \ {i}]
                 /\ Goto(p, [k |-> "bury", id |-> i, s |-> owner[i]])
                 /\ UNCHANGED <<Sh, glock, nlock, ids, owner, may, seen>>
BuryLock(p) == /\ pc[p].k = "bury" /\ glock = Nul /\ glock' = p /\ Goto(p, [pc[p] EXCEPT !.k = "bury2"])
               /\ UNCHANGED <<Sh, nlock, ids, Gh>>
Bury(p) == LET s == pc[p].s IN
           /\ pc[p].k = "bury2" /\ nlock[s] = Nul
           /\ dead' = [dead EXCEPT ![s] = dead[G], ![G] = s]
           /\ glock' = Nul /\ Goto(p, [k |-> "idle"])
           /\ phase' = [phase EXCEPT ![pc[p].id] = "gone"]
           /\ UNCHANGED <<all, nxt, data, fresh, nlock, ids, owner, must, may, seen>>
\* -------- iteration
ItBegin(p) == /\ p \in Iter /\ pc[p].k = "idle" /\ Goto(p, [k |-> "at", s |-> all])
              /\ must' = [must EXCEPT ![p] = { i \in Ids : phase[i] = "live" }]
              /\ may' = [may EXCEPT ![p] = { i \in Ids : phase[i] \in {"reg", "live", "unreg"} }]
              /\ seen' = [seen EXCEPT ![p] = <<>>]
              /\ UNCHANGED <<Sh, glock, nlock, ids, owner, phase>>
ItLock(p) == /\ pc[p].k = "at" /\ pc[p].s # Nul /\ nlock[pc[p].s] = Nul
             /\ nlock' = [nlock EXCEPT ![pc[p].s] = p] /\ Goto(p, [pc[p] EXCEPT !.k = "in"])
             /\ UNCHANGED <<Sh, glock, ids, Gh>>
ItVisit(p) == LET s == pc[p].s IN
              /\ pc[p].k = "in"
              /\ seen' = IF dead[s] = Nul THEN [seen EXCEPT ![p] = Append(@, data[s])] ELSE seen
              /\ nlock' = [nlock EXCEPT ![s] = Nul] /\ Goto(p, [k |-> "at", s |-> nxt[s]])
              /\ UNCHANGED <<Sh, glock, ids, owner, phase, must, may>>
ItEnd(p) == /\ pc[p].k = "at" /\ pc[p].s = Nul /\ Goto(p, [k |-> "idle"])
            /\ UNCHANGED <<Sh, glock, nlock, ids, Gh>>
Next == \E p \in Procs : RegBegin(p) \/ Pop(p) \/ Raise(p) \/ New(p) \/ Cas(p) \/ UnregBegin(p) \/ BuryLock(p) \/ Bury(p)
                         \/ ItBegin(p) \/ ItLock(p) \/ ItVisit(p) \/ ItEnd(p)
Spec == Init /\ [][Next]_vars
SetOf(s) == { s[k] : k \in DOMAIN s }
IterRight == \A p \in Iter : (pc[p].k = "at" /\ pc[p].s = Nul) =>
   /\ must[p] \subseteq SetOf(seen[p]) /\ SetOf(seen[p]) \subseteq may[p]
   /\ Cardinality(SetOf(seen[p])) = Len(seen[p])
NoShare == \A i, j \in Ids : (i # j /\ phase[i] = "live" /\ phase[j] = "live") => owner[i] # owner[j]
DataKept == \A i \in Ids : phase[i] = "live" => data[owner[i]] = i /\ dead[owner[i]] = Nul
\* a record is created only when none is dead: no record is lost
Reuse == glock = Nul => LET D == { n \in Nodes : dead[n] # Nul } IN (D = {}) = (dead[G] = G)
=============================================================================
