---------------------------- MODULE RecorderTrace ---------------------------
(* Histories of the real registry.  Every registration carries a fresh id   *)
(* encoded in all fields of the sample; handles are the returned records.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
T == 0 .. 3
VARIABLES l, phase, hnd, disp, cb, pend, must, may, nrec
tvars == <<l, phase, hnd, disp, cb, pend, must, may, nrec>>
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Idle == "idle"
Ids == DOMAIN phase
Init == l = 1 /\ phase = <<>> /\ hnd = <<>> /\ disp = <<>> /\ cb = FALSE /\ nrec = 0
        /\ pend = [t \in T |-> Idle] /\ must = [t \in T |-> {}] /\ may = [t \in T |-> {}]
Reset == /\ IsOp("reset") /\ phase' = [i \in 1 .. e.n |-> "none"] /\ hnd' = [i \in 1 .. e.n |-> 0] /\ disp' = [i \in 1 .. e.n |-> 0]
         /\ cb' = FALSE /\ pend' = [t \in T |-> Idle] /\ must' = [t \in T |-> {}] /\ may' = [t \in T |-> {}] /\ nrec' = 0
Others(t) == { u \in T \ {t} : pend[u] # Idle }
Is(p) == { i \in Ids : phase[i] \in p }
\* dispose callback (re)set, only when nothing else runs; e.prev: whether one was returned
SetCb == IsOp("setcb") /\ (\A t \in T : pend[t] = Idle) /\ e.prev = cb /\ cb' = e.on /\ UNCHANGED <<phase, hnd, disp, pend, must, may, nrec>>
RegCall == /\ IsOp("call") /\ e.f = "reg" /\ pend[e.t] = Idle /\ phase[e.id] = "none"
           /\ phase' = [phase EXCEPT ![e.id] = "reg"] /\ may' = [t \in T |-> may[t] \cup {e.id}]
           /\ pend' = [pend EXCEPT ![e.t] = "reg"] /\ UNCHANGED <<hnd, disp, cb, must, nrec>>
RegRet == /\ IsOp("ret") /\ e.f = "reg" /\ pend[e.t] = "reg" /\ phase[e.id] = "reg" /\ e.h > 0
          /\ \A i \in Is({"live"}) : hnd[i] # e.h          \* never shared by two live samples
          /\ e.h <= nrec + 1 /\ nrec' = IF e.h > nrec THEN e.h ELSE nrec   \* handles numbered by first appearance
          /\ (e.h > nrec /\ e.solo) => Cardinality(Is({"live"})) = nrec   \* records are reused
          /\ phase' = [phase EXCEPT ![e.id] = "live"] /\ hnd' = [hnd EXCEPT ![e.id] = e.h]
          /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ UNCHANGED <<disp, cb, must, may>>
UnregCall == /\ IsOp("call") /\ e.f = "unreg" /\ pend[e.t] = Idle /\ phase[e.id] = "live"
             /\ phase' = [phase EXCEPT ![e.id] = "unreg"] /\ must' = [t \in T |-> must[t] \ {e.id}]
             /\ pend' = [pend EXCEPT ![e.t] = "unreg"] /\ UNCHANGED <<hnd, disp, cb, may, nrec>>
UnregRet == /\ IsOp("ret") /\ e.f = "unreg" /\ pend[e.t] = "unreg" /\ phase[e.id] = "unreg"
            /\ disp[e.id] = IF cb THEN 1 ELSE 0
            /\ phase' = [phase EXCEPT ![e.id] = "gone"]
            /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ UNCHANGED <<hnd, disp, cb, must, may, nrec>>
AllCall == /\ IsOp("call") /\ e.f = "all" /\ pend[e.t] = Idle /\ Is({"reg", "unreg"}) = {}
           /\ phase' = [i \in Ids |-> IF phase[i] = "live" THEN "unreg" ELSE phase[i]]
           /\ must' = [t \in T |-> {}] /\ pend' = [pend EXCEPT ![e.t] = "all"] /\ UNCHANGED <<hnd, disp, cb, may, nrec>>
AllRet == /\ IsOp("ret") /\ e.f = "all" /\ pend[e.t] = "all"
          /\ \A i \in Is({"unreg"}) : disp[i] = IF cb THEN 1 ELSE 0
          /\ phase' = [i \in Ids |-> IF phase[i] = "unreg" THEN "gone" ELSE phase[i]]
          /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ UNCHANGED <<hnd, disp, cb, must, may, nrec>>
\* the callback gets the sample while its data is intact, at most once per unregistration
Dispose == /\ IsOp("dispose") /\ cb /\ e.id \in Ids /\ phase[e.id] = "unreg" /\ e.ok /\ disp[e.id] = 0
           /\ disp' = [disp EXCEPT ![e.id] = 1] /\ UNCHANGED <<phase, hnd, cb, pend, must, may, nrec>>
ItCall == /\ IsOp("call") /\ e.f = "iter" /\ pend[e.t] = Idle /\ pend' = [pend EXCEPT ![e.t] = "iter"]
          /\ must' = [must EXCEPT ![e.t] = Is({"live"})] /\ may' = [may EXCEPT ![e.t] = Is({"reg", "live", "unreg"})]
          /\ UNCHANGED <<phase, hnd, disp, cb, nrec>>
ItRet == /\ IsOp("ret") /\ e.f = "iter" /\ pend[e.t] = "iter" /\ e.ok
         /\ LET S == { e.ids[k] : k \in DOMAIN e.ids } IN
            /\ Cardinality(S) = Len(e.ids) /\ must[e.t] \subseteq S /\ S \subseteq may[e.t]
         /\ pend' = [pend EXCEPT ![e.t] = Idle] /\ UNCHANGED <<phase, hnd, disp, cb, must, may, nrec>>
Next == Reset \/ SetCb \/ RegCall \/ RegRet \/ UnregCall \/ UnregRet \/ AllCall \/ AllRet \/ Dispose \/ ItCall \/ ItRet
Spec == Init /\ [][Next]_tvars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
