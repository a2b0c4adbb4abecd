----------------------------- MODULE PageMapTrace ---------------------------
(* Histories of the real page map over a universe of pages in address order *)
(* (leaf and huge page of each given in the reset line).                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, leaf, hp, in, span, cls, pk, huge, ens
tvars == <<l, leaf, hp, in, span, cls, pk, huge, ens>>
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
P == DOMAIN leaf
Init == l = 1 /\ leaf = <<>> /\ hp = <<>> /\ in = <<>> /\ span = <<>> /\ cls = <<>> /\ pk = <<>> /\ huge = <<>> /\ ens = {}
Reset == /\ IsOp("reset") /\ leaf' = e.leaf /\ hp' = e.hp /\ in' = e.in
         /\ span' = [p \in DOMAIN e.leaf |-> 0] /\ cls' = span' /\ pk' = span' /\ huge' = [p \in DOMAIN e.leaf |-> 0] /\ ens' = {}
\* pages of the leaves touched become usable; nothing else does; only a failure may stop early
Ensure ==
  /\ IsOp("ensure")
  /\ LET want == { p \in P : leaf[p] \in { leaf[q] : q \in e.a .. e.b } /\ in[p] }
         has == { p \in P : e.has[p] } IN
     /\ ens \subseteq has /\ has \subseteq ens \cup want
     /\ e.ok => (want \subseteq has /\ \A p \in e.a .. e.b : in[p])
     /\ (\A p, q \in P : leaf[p] = leaf[q] /\ in[p] /\ in[q] => (p \in has) = (q \in has)) = TRUE
     /\ ens' = has
  /\ UNCHANGED <<leaf, hp, in, span, cls, pk, huge>>
Set == /\ IsOp("set") /\ e.a \in ens /\ span' = [span EXCEPT ![e.a] = e.s] /\ cls' = [cls EXCEPT ![e.a] = e.c] /\ pk' = [pk EXCEPT ![e.a] = e.c]
       /\ UNCHANGED <<leaf, hp, in, huge, ens>>
\* unregistering the class; the combined lookup is only asked again after the next set
Clear == /\ IsOp("clear") /\ e.a \in ens /\ cls' = [cls EXCEPT ![e.a] = 0] /\ pk' = [pk EXCEPT ![e.a] = -1] /\ UNCHANGED <<leaf, hp, in, span, huge, ens>>
SetHp == /\ IsOp("sethp") /\ e.a \in ens /\ huge' = [p \in P |-> IF hp[p] = hp[e.a] THEN e.s ELSE huge[p]] /\ UNCHANGED <<leaf, hp, in, span, cls, pk, ens>>
NextOf(p) == LET S == { q \in P : q > p /\ span[q] # 0 } IN IF S = {} THEN 0 ELSE CHOOSE q \in S : \A r \in S : q <= r
Look == /\ IsOp("look")
        /\ e.get = span /\ e.sc = cls /\ e.bs = span
        /\ \A p \in P : pk[p] >= 0 => e.bc[p] = pk[p]
        /\ \A p \in P : p \in ens => e.ex[p] = span[p] /\ e.hu[p] = huge[p]
        /\ \A i \in 1 .. Len(e.nx) \div 2 : e.nx[2 * i] = NextOf(e.nx[2 * i - 1])
        /\ UNCHANGED <<leaf, hp, in, span, cls, pk, huge, ens>>
Next == Reset \/ Ensure \/ Set \/ Clear \/ SetHp \/ Look
Spec == Init /\ [][Next]_tvars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
