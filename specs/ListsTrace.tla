------------------------------ MODULE ListsTrace ----------------------------
(* Executions of the real lists.  kind "ll": singly linked LinkedList (a     *)
(* sequence of layers; the order inside one pushed batch is unspecified);    *)
(* kind "tl": TList (buckets are separate lists); kind "ht": HintedTrackerLists. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, kind, ll, b
tvars == <<l, kind, ll, b>>
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Init == l = 1 /\ kind = "" /\ ll = <<>> /\ b = <<>>
Reset == IsOp("reset") /\ kind' = e.kind /\ ll' = <<>> /\ b' = [i \in 1 .. e.n |-> <<>>]
N == Len(b)
ToSet(s) == { s[k] : k \in DOMAIN s }
Distinct(s) == Cardinality(ToSet(s)) = Len(s)
\* -------- LinkedList: first layer on top
RECURSIVE Card(_)
Card(s) == IF s = <<>> THEN 0 ELSE Cardinality(s[1]) + Card(Tail(s))
Members(s) == UNION ToSet(s)
Drop(s, X) == SelectSeq([k \in DOMAIN s |-> s[k] \ X], LAMBDA x : x # {})
LLOk(s) == e.len = Card(s) /\ e.empty = (s = <<>>)
Push == IsOp("push") /\ e.x \notin Members(ll) /\ ll' = <<{e.x}>> \o ll /\ LLOk(ll') /\ UNCHANGED <<kind, b>>
PushBatch == IsOp("pushbatch") /\ Distinct(e.xs) /\ ll' = <<ToSet(e.xs)>> \o ll /\ LLOk(ll') /\ UNCHANGED <<kind, b>>
TryPop == /\ IsOp("trypop") /\ e.ok = (ll # <<>>)
          /\ IF e.ok THEN e.x \in ll[1] /\ ll' = Drop(ll, {e.x}) ELSE ll' = ll
          /\ LLOk(ll') /\ UNCHANGED <<kind, b>>
PopBatch == /\ IsOp("popbatch") /\ Distinct(e.xs) /\ Len(e.xs) = e.n /\ ToSet(e.xs) \subseteq Members(ll)
            /\ ll' = Drop(ll, ToSet(e.xs)) /\ LLOk(ll') /\ UNCHANGED <<kind, b>>
\* -------- doubly linked buckets
Pos(s, x) == { k \in DOMAIN s : s[k] = x }
Bucket(x) == { i \in 1 .. N : Pos(b[i], x) # {} }
Free(x) == Bucket(x) = {}
On(x, i) == i \in 1 .. N /\ Pos(b[i], x) # {}
K(i, x) == CHOOSE k \in DOMAIN b[i] : b[i][k] = x
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
InsertAt(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
Keep == UNCHANGED <<kind, ll>>
Prepend == IsOp("prepend") /\ Free(e.x) /\ b' = [b EXCEPT ![e.i] = <<e.x>> \o @] /\ Keep
PutLast == IsOp("append") /\ Free(e.x) /\ b' = [b EXCEPT ![e.i] = @ \o <<e.x>>] /\ Keep
PrependTo == IsOp("prependto") /\ Free(e.x) /\ On(e.y, e.i) /\ b' = [b EXCEPT ![e.i] = InsertAt(@, K(e.i, e.y), e.x)] /\ Keep
AppendTo == IsOp("appendto") /\ Free(e.x) /\ On(e.y, e.i) /\ b' = [b EXCEPT ![e.i] = InsertAt(@, K(e.i, e.y) + 1, e.x)] /\ Keep
Remove == /\ IsOp("remove") /\ On(e.x, e.i) /\ b' = [b EXCEPT ![e.i] = Without(@, K(e.i, e.x))]
          /\ (kind = "tl" => e.empty = (b'[e.i] = <<>>)) /\ Keep
Move == /\ IsOp("move") /\ On(e.x, e.i) /\ e.i # e.j
        /\ b' = [b EXCEPT ![e.i] = Without(@, K(e.i, e.x)), ![e.j] = <<e.x>> \o @] /\ Keep
Least(n) == LET S == { i \in n .. N : b[i] # <<>> } IN IF S = {} THEN N + 1 ELSE CHOOSE i \in S : \A k \in S : i <= k
GetLeast == /\ IsOp("getleast") /\ LET i == Least(e.n) IN
               IF i > N THEN e.x = 0 /\ b' = b
               ELSE e.x = b[i][1] /\ b' = [b EXCEPT ![i] = Tail(@)]
            /\ Keep
PeekLeast == /\ IsOp("peekleast") /\ UNCHANGED <<kind, ll, b>>
             /\ LET i == Least(e.n) IN e.i = i /\ e.x = IF i > N THEN 0 ELSE b[i][1]
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Full(i) == /\ IsOp("list") /\ UNCHANGED <<kind, ll, b>>
           /\ e.fw = b[e.i] /\ e.bw = Rev(b[e.i]) /\ e.len = Len(b[e.i]) /\ e.empty = (b[e.i] = <<>>)
           /\ (b[e.i] # <<>>) => (e.first = b[e.i][1] /\ e.last = b[e.i][Len(b[e.i])])
List == IsOp("list") /\ Full(e.i)
RECURSIVE Cat(_, _)
Cat(i, n) == IF i > n THEN <<>> ELSE b[i] \o Cat(i + 1, n)
Iter == IsOp("iter") /\ e.xs = Cat(e.n, N) /\ e.size = Len(Cat(1, N)) /\ UNCHANGED <<kind, ll, b>>
Next == Reset \/ Push \/ PushBatch \/ TryPop \/ PopBatch \/ Prepend \/ PutLast \/ PrependTo \/ AppendTo \/ Remove
        \/ Move \/ GetLeast \/ PeekLeast \/ List \/ Iter
Spec == Init /\ [][Next]_tvars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
