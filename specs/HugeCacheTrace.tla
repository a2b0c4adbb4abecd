--------------------------- MODULE HugeCacheTrace ---------------------------
(* Accepts a recorded history of HugeCache iff it is a behaviour of HugeCache and every observation matches. *)
EXTENDS HugeCache, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, umaxever
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1

Obs ==
  /\ ListsRuns(e.list, cached')
  /\ e.size = Cardinality(cached') /\ e.usage = Cardinality(inuse')
  /\ e.limit = limit'
  /\ e.spans = Len(e.list) /\ e.normal = Cardinality(cached') /\ e.returned = 0
  /\ e.sysb = e.size + e.usage /\ e.freeb = e.size /\ e.unmb = 0
  /\ e.alfree = Cardinality(unbacked') /\ e.alsys = Cardinality(sys')
  /\ umaxever' = Max2(umaxever, Cardinality(inuse'))

Reset ==
  /\ IsOp("reset")
  /\ inuse' = {} /\ cached' = {} /\ limbo' = {} /\ unbacked' = {} /\ sys' = {} /\ limit' = Base /\ ops' = <<>>
  /\ hits' = 0 /\ misses' = 0 /\ fills' = 0 /\ overs' = 0 /\ fast' = 0 /\ periodic' = 0 /\ umaxever' = 0
TGet ==
  /\ IsOp("get")
  /\ IF ~e.ok THEN GetFail(e.n) /\ e.sysreq = 0
     ELSE /\ e.rn = e.n
          /\ IF e.rel THEN GetMiss(e.n, e.a, IF e.sysreq = 0 THEN 0 ELSE e.s, e.m, e.limit)
                      ELSE e.sysreq = 0 /\ GetHit(e.n, e.a)
  /\ Obs
TRelUn == IsOp("relun") /\ ReleaseUnbacked(e.a, e.n) /\ Obs
TRel == IsOp("rel") /\ ReleaseBegin(e.id, e.a, e.n) /\ UNCHANGED umaxever
TRcp == IsOp("rcp") /\ CachedBegin(e.id, e.n) /\ UNCHANGED umaxever
TUnback == IsOp("unback") /\ UnbackBegin(e.id, e.a, e.n, e.ok, e.limit) /\ Obs
(* driver: operations run inside an unback are recorded between unback and unback_done *)
TDone ==
  /\ IsOp("unback_done") /\ l > 1
  /\ \E x \in limbo :
       /\ x[1] = e.id
       /\ limbo' = limbo \ {x}
       /\ IF x[4] THEN unbacked' = unbacked \cup Ival(x[2], x[3]) /\ cached' = cached
                  ELSE cached' = cached \cup Ival(x[2], x[3]) /\ unbacked' = unbacked
       /\ ops' = [ops EXCEPT ![e.id].done = @ + (IF x[4] THEN x[3] ELSE 0), ![e.id].failed = @ \/ ~x[4],
                             ![e.id].nested = @ \/ Trace[l - 1].op # "unback"]
  /\ UNCHANGED <<inuse, sys, limit, hits, misses, fills, overs, fast, periodic, umaxever>>
TRelEnd == IsOp("rel_end") /\ ReleaseEnd(e.id, e.limit) /\ Obs
TRcpEnd == IsOp("rcp_end") /\ CachedEnd(e.id, e.r, e.limit) /\ Obs
(* x in ten-thousandths, printed with three digits *)
Ratio(x, a, b) == IF a + b = 0 THEN x = 0 ELSE LET y == (a * 10000) \div (a + b) IN x >= y - 11 /\ x <= y + 11
TStats ==
  /\ IsOp("stats")
  /\ UNCHANGED vars /\ Obs
  /\ e.cached = Cardinality(cached) /\ e.maxc = limit /\ e.t_size = e.cached /\ e.t_limit = limit
  /\ Ratio(e.hit, hits, misses) /\ Ratio(e.t_hit, hits, misses)
  /\ Ratio(e.over, overs, fills) /\ Ratio(e.t_over, overs, fills)
  /\ e.fast = fast /\ e.periodic = periodic
  /\ e.t_fast = fast * e.mib /\ e.t_per = periodic * e.mib
  /\ e.ucur = Cardinality(inuse) /\ e.umin <= e.ucur /\ e.ucur <= e.umax /\ e.umax <= umaxever
  /\ e.t_ucur = e.ucur * e.mib /\ e.t_umin = e.umin * e.mib /\ e.t_umax = e.umax * e.mib
  /\ e.ccur = Cardinality(cached) /\ e.cmin <= e.ccur /\ e.ccur <= e.cmax

TInit == Init /\ l = 1 /\ umaxever = 0
TNext == Reset \/ TGet \/ TRelUn \/ TRel \/ TRcp \/ TUnback \/ TDone \/ TRelEnd \/ TRcpEnd \/ TStats
TSpec == TInit /\ [][TNext]_<<vars, l, umaxever>>
TInv == TypeSound /\ LimitSound
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
