--------------------------- MODULE PageHeapTrace ---------------------------
(* Histories of the real page heap: operations (nested where the lock was  *)
(* dropped or a limit was hit), system calls, and everything it reports.    *)
EXTENDS PageHeap, FiniteSetsExt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, rels, credit
\* credit: pages dropped when a huge page became empty, not yet claimed by a release
\* st: operations under way: [k, got: pages dropped, bk: run backed, fail: a drop failed, nest: something ran inside,
\*  run, miss: the run chosen, and whether pages of it were not backed then]
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Top == st[Len(st)]
Pop == SubSeq(st, 1, Len(st) - 1)
Upd(r) == Append(Pop, r)
Zero5 == [t |-> 0, w |-> [i \in 0 .. 3 |-> 0]]
TInit == HInit /\ l = 1 /\ st = <<>> /\ rels = Zero5 /\ credit = 0

Begin == /\ IsOp("beg")
         /\ st' = Append(IF st = <<>> THEN st ELSE Upd([Top EXCEPT !.nest = TRUE]), [k |-> e.k, got |-> 0, bk |-> <<>>, fail |-> FALSE, nest |-> FALSE, sysf |-> FALSE, miss |-> FALSE, run |-> <<>>])
         /\ IF e.k = "del" THEN Give(e.p, e.n) /\ live[e.p].don = e.d
            ELSE UNCHANGED hvars
         /\ UNCHANGED <<rels, credit>>
Sys == /\ IsOp("sys") /\ st # <<>>
       /\ IF e.ok THEN Grow(e.a, e.m) /\ UNCHANGED st ELSE st' = Upd([Top EXCEPT !.sysf = TRUE]) /\ UNCHANGED hvars
       /\ UNCHANGED <<rels, credit>>
IsWhole == e.p % HP = 0 /\ e.n % HP = 0
Ub == /\ IsOp("ub") /\ st # <<>>
      /\ MayDrop(e.p, e.n)
      /\ IF IsWhole THEN Hps(e.p, e.n) \cap unb = {} ELSE MayDropPart(e.p, e.n)
      /\ limbo' = limbo \cup Hps(e.p, e.n)
      /\ UNCHANGED <<sys, live, unb, rel, drain, gift, st, rels, credit>>
\* pages of a huge page dropped as a whole that were still there
Fresh(h) == IF h \in DOMAIN rel THEN HP - Cardinality(rel[h]) ELSE HP
Ube == /\ IsOp("ube") /\ st # <<>>
       /\ IF IsWhole /\ \A h \in Hps(e.p, e.n) : UsedIn(live, h) = {} /\ h \notin DOMAIN rel
          THEN DropWhole(e.p, e.n, e.ok) ELSE DropPart(e.p, e.n, e.ok)
       /\ limbo' = limbo \ Hps(e.p, e.n)
       /\ credit' = credit + (IF e.ok THEN MapThenSumSet(LAMBDA h : drain[h], Hps(e.p, e.n) \cap DOMAIN drain) ELSE 0)
       /\ UNCHANGED rels
       /\ st' = Upd([Top EXCEPT !.got = @ + (IF e.ok THEN e.n ELSE 0), !.fail = @ \/ ~e.ok])
Bk == /\ IsOp("bk") /\ st # <<>> /\ st' = Upd([Top EXCEPT !.bk = Append(@, <<e.p, e.n>>)]) /\ UNCHANGED <<hvars, rels, credit>>

\* what is reported about one huge page
BitsOk(b) == b.h >= 0 /\ UNION { Pg(b.h * HP + b.r[i][1], b.r[i][2]) : i \in DOMAIN b.r } = { x \in Whole(b.h) : \E q \in UsedIn(live', b.h) : q <= x /\ x < q + live'[q].n }
UsedP == MapThenSumSet(LAMBDA q : live'[q].n, DOMAIN live')
UnmP == Cardinality(unb') * HP + MapThenSumSet(LAMBDA h : Cardinality(rel'[h]), DOMAIN rel')
Reports == e.top =>
  LET s == e.st IN
  /\ s[1] = Cardinality(sys') * HP
  /\ s[3] = UnmP /\ s[2] = s[1] - UnmP - UsedP
  /\ s[4] = s[2] /\ s[5] = s[3]
  /\ s[6] = Cardinality(DOMAIN gift')
  /\ s[7] = MapThenSumSet(LAMBDA h : gift'[h].n, { h \in DOMAIN gift' : gift'[h].ab })
  /\ DOMAIN drain' = {} /\ limbo' = {}
  /\ s[9] = rels'.t /\ s[10] = rels'.w[0] /\ s[11] = rels'.w[1] /\ s[12] = rels'.w[2] /\ s[13] = rels'.w[3]
AllBits == \A i \in DOMAIN e.bm : BitsOk(e.bm[i])

TakeE == /\ IsOp("take") /\ st # <<>> /\ Top.k = "new" /\ Top.run = <<>>
         /\ Take(e.p, e.n, e.d)
         /\ st' = Upd([Top EXCEPT !.run = <<e.p, e.n, e.d>>, !.miss = Missing(e.p, e.n)])
         /\ UNCHANGED <<rels, credit>>
NewE == /\ IsOp("new") /\ st # <<>> /\ Top.k = "new"
        /\ st' = Pop /\ UNCHANGED <<hvars, rels, credit>>
        /\ IF e.p < 0 THEN Top.sysf /\ e.bm = <<>> /\ Top.run = <<>>         \* only when the system refused
           ELSE /\ e.n = e.want /\ e.p % e.al = 0 /\ e.tag
                /\ Top.run = <<e.p, e.n, e.d>>
                \* backed before use if asked to, and only then
                /\ (e.should /\ Top.miss) => Top.bk = <<<<e.p, e.n>>>>
                /\ Top.bk # <<>> => e.should /\ Top.bk = <<<<e.p, e.n>>>>
        /\ AllBits /\ Reports
DelE == /\ IsOp("del") /\ st # <<>> /\ Top.k = "del" /\ st' = Pop
        /\ UNCHANGED <<hvars, rels, credit>> /\ AllBits /\ Reports
\* huge pages that are free, backed and whole
FreeWhole == { h \in sys' \ unb' : UsedIn(live', h) = {} }
NothingLeft == /\ Cardinality(FreeWhole) = (IF e.brk THEN 0 ELSE e.st[8])
               /\ e.trk => \A i \in DOMAIN e.tr : LET h == e.tr[i] IN
                    \/ h \in DOMAIN rel'
                    \/ MapThenSumSet(LAMBDA q : Cardinality(Pg(q, live'[q].n) \cap Whole(h)), UsedIn(live', h)) = HP
RelE == /\ IsOp("rel") /\ st # <<>> /\ Top.k = "rel" /\ st' = Pop
        /\ rels' = [t |-> rels.t + e.ret, w |-> [rels.w EXCEPT ![e.why] = @ + e.ret]]
        /\ UNCHANGED <<hvars>>
        \* what was dropped, and what had been dropped without being asked for
        /\ \/ e.ret = Top.got /\ credit' = credit
           \/ e.ret = Top.got + credit /\ credit' = 0
        /\ (e.full /\ e.ret < e.n /\ ~Top.fail /\ ~Top.nest /\ Len(st) = 1) => NothingLeft
        /\ Reports
Treat == IsOp("treat") /\ st # <<>> /\ Top.k = "treat" /\ st' = Pop /\ UNCHANGED <<hvars, rels, credit>> /\ Reports
TNext == Begin \/ Sys \/ Ub \/ Ube \/ Bk \/ TakeE \/ NewE \/ DelE \/ RelE \/ Treat
Spec == TInit /\ [][TNext]_<<hvars, l, st, rels, credit>>
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
