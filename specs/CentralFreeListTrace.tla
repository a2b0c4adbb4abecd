------------------------ MODULE CentralFreeListTrace ------------------------
(* Histories of the real central free list.  An object's id is              *)
(* span * 2048 + index.  Ownership is checked at every return, the counters *)
(* at every quiescent point.                                                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cf, own, cnt, born, tot, fly, done, used, same
vars == <<l, cf, own, cnt, born, tot, fly, done, used, same>>
M == 2048
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Rng(s) == { s[i] : i \in DOMAIN s }
T == 0 .. 4
Idle == [n |-> 0, tried |-> FALSE, new |-> -1, free |-> 0, dead |-> FALSE]
BW(x) == IF x = 0 THEN 0 ELSE CHOOSE b \in 1 .. 16 : x < 2 ^ b /\ x >= 2 ^ (b - 1)
Zero(n) == [i \in 1 .. n |-> 0]
Init == /\ l = 1 /\ cf = [k |-> 0] /\ own = {} /\ cnt = <<>> /\ born = <<>> /\ tot = [req |-> 0, ret |-> 0]
        /\ fly = [t \in T |-> Idle] /\ done = Zero(8) /\ used = Zero(8) /\ same = Zero(130)
Reset == /\ IsOp("reset") /\ cf' = [k |-> e.k, waste |-> e.waste, conc |-> e.conc, move |-> e.move]
         /\ own' = {} /\ cnt' = <<>> /\ born' = <<>> /\ tot' = [req |-> 0, ret |-> 0] /\ fly' = [t \in T |-> Idle]
         /\ done' = Zero(8) /\ used' = Zero(8) /\ same' = Zero(130)
Live == DOMAIN cnt
FreeNow == cf.k * Cardinality(Live) - Cardinality(own)
\* --- insertion
Ins == /\ IsOp("ins") /\ e.intact
       /\ Len(e.ids) = Cardinality(Rng(e.ids)) /\ Rng(e.ids) \subseteq own
       /\ own' = own \ Rng(e.ids)
       /\ cnt' = [s \in Live |-> cnt[s] - Cardinality({ i \in DOMAIN e.ids : e.ids[i] \div M = s })]
       /\ same' = [same EXCEPT ![1 + Cardinality({ i \in 2 .. Len(e.ids) : e.ids[i] \div M = e.ids[i - 1] \div M })] = @ + (IF cf.k > 1 THEN 1 ELSE 0)]
       /\ UNCHANGED <<cf, born, tot, fly, done, used>>
InsRet == /\ IsOp("insret") /\ e.hook
          \* a span whose last object came back is gone (other threads may still be about to return theirs)
          /\ cf.conc \/ (\A s \in Live : cnt[s] > 0)
          /\ UNCHANGED <<cf, own, cnt, born, tot, fly, done, used, same>>
Bucket(ms) == IF ms < 1 THEN 1 ELSE IF ms < 10 THEN 2 ELSE IF ms < 100 THEN 3 ELSE IF ms < 1000 THEN 4 ELSE IF ms < 10000 THEN 5
              ELSE IF ms < 100000 THEN 6 ELSE IF ms < 1000000 THEN 7 ELSE 8
Dead == /\ IsOp("dead") /\ e.args
        /\ Len(e.s) = Cardinality(Rng(e.s)) /\ Rng(e.s) \subseteq Live
        /\ \A s \in Rng(e.s) : cnt[s] = 0
        /\ cnt' = [s \in Live \ Rng(e.s) |-> cnt[s]] /\ born' = [s \in Live \ Rng(e.s) |-> born[s]]
        /\ tot' = [tot EXCEPT !.ret = @ + Len(e.s)]
        /\ done' = [b \in 1 .. 8 |-> done[b] + (IF cf.k > 1 THEN Cardinality({ s \in Rng(e.s) : Bucket(e.now - born[s]) = b }) ELSE 0)]
        /\ UNCHANGED <<cf, own, fly, used, same>>
\* --- removal
Rem == /\ IsOp("rem") /\ fly' = [fly EXCEPT ![e.t] = [Idle EXCEPT !.n = e.n, !.free = FreeNow]]
       /\ UNCHANGED <<cf, own, cnt, born, tot, done, used, same>>
Alloc == /\ IsOp("alloc") /\ e.args /\ ~fly[e.t].tried
         /\ fly' = [fly EXCEPT ![e.t].tried = TRUE, ![e.t].new = e.s]
         /\ IF e.ok THEN /\ e.s \notin Live /\ cnt' = (e.s :> 0) @@ cnt /\ born' = (e.s :> e.now) @@ born /\ tot' = [tot EXCEPT !.req = @ + 1]
            ELSE UNCHANGED <<cnt, born, tot>>
         /\ UNCHANGED <<cf, own, done, used, same>>
RemRet ==
  /\ IsOp("remret")
  /\ LET f == fly[e.t]
         R == Rng(e.ids)
         sps == { i \div M : i \in R } IN
     /\ e.k = Len(e.ids) /\ e.k <= f.n /\ Cardinality(R) = e.k
     /\ \A i \in R : i >= 0 /\ i \div M \in Live /\ i % M < cf.k /\ i \notin own
     /\ (e.k > 0) => e.hook
     /\ IF cf.k = 1 THEN /\ f.tried /\ sps = (IF f.new >= 0 THEN {f.new} ELSE {})
        ELSE LET fromnew == Cardinality({ i \in R : i \div M = f.new }) IN
             \* fewer than asked only if there was no span to be had, or the new one did not suffice
             /\ (e.k < f.n) => f.tried /\ (f.new = -1 \/ fromnew = cf.k)
             /\ (f.new >= 0) => fromnew > 0
             \* a span is fetched only when no free object is left in the others
             /\ (~cf.conc /\ f.tried) => e.k - fromnew = f.free
     /\ own' = own \cup R
     /\ cnt' = [s \in Live |-> cnt[s] + Cardinality({ i \in R : i \div M = s })]
     /\ LET visited == Cardinality(sps) + (IF f.tried /\ f.new = -1 THEN 1 ELSE 0) IN
        used' = IF cf.k = 1 THEN used ELSE [used EXCEPT ![BW(visited)] = @ + 1]
     /\ fly' = [fly EXCEPT ![e.t] = Idle]
  /\ UNCHANGED <<cf, born, tot, done, same>>
\* --- quiescent points
Index(a) == IF cf.k <= 16 THEN (IF a <= 8 THEN 8 - a ELSE 0) ELSE (IF BW(a) >= 8 THEN 0 ELSE 8 - BW(a))
State ==
  /\ IsOp("state") /\ UNCHANGED <<cf, own, cnt, born, tot, fly, done, used, same>>
  /\ LET open == { s \in Live : cnt[s] < cf.k }
         many == cf.k > 1 IN
     /\ \A s \in Live : cnt[s] > 0
     /\ Rng(e.sp) = Live /\ (many => \A i \in DOMAIN e.sp : e.out[i] = cnt[e.sp[i]])
     /\ e.len = (IF many THEN FreeNow ELSE 0)
     /\ e.over = (IF many THEN Cardinality(Live) * cf.waste ELSE 0)
     /\ e.req = (IF many THEN tot.req ELSE 0) /\ e.ret = (IF many THEN tot.ret ELSE 0)
     /\ e.live = e.req - e.ret /\ e.cap = (e.req - e.ret) * cf.k
     /\ \A b \in 1 .. 16 : e.hist[b] = (IF many THEN Cardinality({ s \in Live : BW(cnt[s]) = b }) ELSE 0)
     /\ \A i \in 0 .. 7 : e.lists[i + 1] = (IF many THEN Cardinality({ s \in open : Index(cnt[s]) = i }) ELSE 0)
     /\ (\A i \in DOMAIN e.sp : many /\ e.sp[i] \in open => e.ix[i] = Index(cnt[e.sp[i]])) = TRUE
     /\ e.text => /\ \A b \in 1 .. 8 : e.lifelive[b] = (IF many THEN Cardinality({ s \in open : Bucket(e.now - born[s]) = b }) ELSE 0)
                  /\ \A b \in 1 .. 8 : e.lifedone[b] = done[b]
                  /\ \A b \in DOMAIN e.used : e.used[b] = used[b]
                  /\ \A i \in 1 .. cf.move : e.same[i] = same[i]
Next == Reset \/ Ins \/ InsRet \/ Dead \/ Rem \/ Alloc \/ RemRet \/ State
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
