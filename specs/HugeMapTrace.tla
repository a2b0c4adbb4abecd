---------------------------- MODULE HugeMapTrace ----------------------------
(* Accepts a recorded history of HugeAddressMap / HugeAllocator iff it is a *)
(* behaviour of HugeMap and every observation matches the abstract state.   *)
EXTENDS HugeMap, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
e == Trace[l]

Maxi(a, b) == IF a >= b THEN a ELSE b
(* recorded search tree: <<>> or <<start, len, longest, left, right>> *)
RECURSIVE TreeLongest(_)
TreeLongest(t) == IF t = <<>> THEN 0 ELSE Maxi(t[2], Maxi(TreeLongest(t[4]), TreeLongest(t[5])))
RECURSIVE InOrder(_)
InOrder(t) == IF t = <<>> THEN <<>> ELSE InOrder(t[4]) \o <<<<t[1], t[2]>>>> \o InOrder(t[5])
RECURSIVE TreeOk(_)
TreeOk(t) == t = <<>> \/ (/\ t[3] = TreeLongest(t)
                          /\ TreeOk(t[4]) /\ TreeOk(t[5]))
Observed(S) ==                          \* S: abstract free set after the step
  /\ ListsRuns(e.list, S)
  /\ e.total = Cardinality(S)
  /\ e.nranges = Len(e.list)
  /\ InOrder(e.tree) = e.list
  /\ TreeOk(e.tree)
ObservedAlloc(F, U, Y) ==
  /\ e.free = Cardinality(F) /\ e.sys = Cardinality(Y)
  /\ e.spans = Cardinality(Runs(F)) /\ e.ret = Cardinality(F)
  /\ e.unmapped = Cardinality(F) /\ e.sysb = Cardinality(Y)

IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Reset == IsOp("reset") /\ free' = {} /\ used' = {} /\ sys' = {}
TInsert == IsOp("insert") /\ MapInsert(e.a, e.n) /\ Observed(free')
TRemove == IsOp("remove") /\ MapRemove(e.a, e.n) /\ Observed(free')
(* highest-addressed range not lying completely after p *)
PredOf(p, S) == LET c == { r \in Runs(S) : r[1] <= p } IN
                IF c = {} THEN <<-1, 0>> ELSE CHOOSE r \in c : \A q \in c : q[1] <= r[1]
TPred == IsOp("pred") /\ <<e.ra, e.rn>> = PredOf(e.p, free) /\ UNCHANGED vars
TGet == /\ IsOp("get")
        /\ IF e.ok THEN IF e.sysreq > 0
                          THEN e.sysreq = 1 /\ GetFromSystem(e.n, e.s, e.m, e.a)
                          ELSE GetFromFree(e.n, e.a)
                   ELSE e.sysreq = 1 /\ GetFails(e.n)
        /\ e.rn = e.n
        /\ ObservedAlloc(free', used', sys')
TRelease == IsOp("release") /\ Release(e.a, e.n) /\ ObservedAlloc(free', used', sys')
TContains == IsOp("contains") /\ e.r = (e.p \in free) /\ UNCHANGED vars

TInit == Init /\ l = 1
TNext == Reset \/ TInsert \/ TRemove \/ TPred \/ TGet \/ TRelease \/ TContains
TSpec == TInit /\ [][TNext]_<<vars, l>>
TInv == free \cap used = {} /\ (sys = {} \/ free \cup used = sys)
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
