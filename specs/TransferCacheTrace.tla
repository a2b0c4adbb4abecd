-------------------------- MODULE TransferCacheTrace ------------------------
(* Histories of the real transfer cache (calls, hand-overs to and from the  *)
(* next tier and returns, possibly overlapping), of resizing several caches *)
(* and of the sharded manager.  The critical sections are silent steps.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
T == 0 .. 3
VARIABLES l, cf, kind, on, used, held, cap, low, own, fl, made, st, com, pend, ov
tvars == <<l, cf, kind, on, used, held, cap, low, own, fl, made, st, com, pend, ov>>
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Idle == [k |-> "idle"]
C == DOMAIN cf
Rng(s) == { s[i] : i \in DOMAIN s }
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
ZS == [ih |-> 0, im |-> 0, io |-> 0, rh |-> 0, ro |-> 0, rm |-> 0, rmo |-> 0]
MaxCap(r, kd) ==
  IF r.size = 0 \/ kd = "off" THEN 0
  ELSE IF kd = "large" THEN (IF r.size >= 4096 THEN 12582912 \div r.size ELSE 0)
  ELSE Min2(64 * r.b, Max2(r.b, (1048576 \div (r.size * r.b)) * r.b))
InitCap(r, kd) == IF kd = "large" THEN MaxCap(r, kd) ELSE Min2(16 * r.b, MaxCap(r, kd))
MX(c) == MaxCap(cf[c], kind)
NC == IF kind = "plain" \/ cf = <<>> THEN Len(cf) ELSE Len(cf) \div on.shards
ShardOf(c) == 1 + ((c - 1) \div NC)
Init == /\ l = 1 /\ cf = <<>> /\ kind = "off" /\ on = [lazy |-> FALSE, shards |-> 1, init |-> <<>>] /\ held = <<>> /\ used = <<>> /\ cap = <<>> /\ low = <<>>
        /\ own = <<>> /\ fl = <<>> /\ made = 0 /\ st = <<>> /\ com = <<>> /\ pend = [t \in T |-> Idle] /\ ov = FALSE
Reset == /\ IsOp("reset") /\ cf' = e.caches /\ kind' = e.kind
         /\ on' = [lazy |-> e.lazy, shards |-> e.shards, init |-> [s \in 1 .. e.shards |-> ~e.lazy]]
         /\ held' = [c \in DOMAIN e.caches |-> {}] /\ used' = [c \in DOMAIN e.caches |-> 0]
         /\ cap' = [c \in DOMAIN e.caches |-> InitCap(e.caches[c], e.kind)]
         /\ low' = [c \in DOMAIN e.caches |-> 0] /\ own' = [c \in DOMAIN e.caches |-> {}]
         /\ fl' = [s \in { e.caches[c].sc : c \in DOMAIN e.caches } |-> {}] /\ made' = 0
         /\ st' = [c \in DOMAIN e.caches |-> ZS] /\ com' = [c \in DOMAIN e.caches |-> 0]
         /\ pend' = [t \in T |-> Idle] /\ ov' = FALSE
Others(t) == { u \in T \ {t} : pend[u].k # "idle" }
Begin(k, p) ==
  /\ IsOp(k) /\ e.c \in C /\ pend[e.t].k = "idle" /\ pend' = [pend EXCEPT ![e.t] = p]
  /\ ov' = (ov \/ Others(e.t) # {})
  /\ on' = IF on.lazy THEN [on EXCEPT !.init[ShardOf(e.c)] = TRUE] ELSE on
  /\ UNCHANGED <<cf, kind, used, held, cap, low, fl, made, st, com>>
InsCall == /\ Begin("ins", [k |-> "ins", c |-> e.c, s |-> "new", kept |-> Rng(e.kept), rest |-> Rng(e.ids) \ Rng(e.kept)])
           /\ Cardinality(Rng(e.ids)) = Len(e.ids) /\ Rng(e.ids) \subseteq own[e.c]
           /\ own' = [own EXCEPT ![e.c] = @ \ Rng(e.ids)]
RemCall == /\ Begin("rem", [k |-> "rem", c |-> e.c, s |-> "new", n |-> e.n, got |-> Rng(e.got), hit |-> e.hit])
           /\ e.k = Len(e.got) /\ Len(e.got) = Cardinality(Rng(e.got)) /\ e.k <= e.n /\ UNCHANGED own
PluCall == Begin("plu", [k |-> "plu", c |-> e.c, s |-> "new", bat |-> e.bat, tr |-> 0, i |-> 1]) /\ UNCHANGED own
ShrCall == Begin("shr", [k |-> "shr", c |-> e.c, s |-> "new", ok |-> e.ok, ev |-> Rng(e.ev)]) /\ UNCHANGED own
GroCall == Begin("gro", [k |-> "gro", c |-> e.c, s |-> "new", ok |-> e.ok]) /\ UNCHANGED own
\* --- silent critical sections
Sil(t, k, s) == l <= Len(Trace) /\ pend[t].k = k /\ pend[t].s = s
To(t, s) == pend' = [pend EXCEPT ![t].s = s]
Quiet == UNCHANGED <<l, cf, kind, on, own, fl, made, com, ov>>
InsLin(t) ==
  /\ Sil(t, "ins", "new")
  /\ LET p == pend[t]
         k == Cardinality(p.kept)
         n == k + Cardinality(p.rest) IN
     /\ k = Min2(n, cap[p.c] - used[p.c])
     /\ held' = [held EXCEPT ![p.c] = @ \cup p.kept] /\ used' = [used EXCEPT ![p.c] = @ + k]
     /\ st' = [st EXCEPT ![p.c] = [@ EXCEPT !.ih = @ + (IF k > 0 THEN 1 ELSE 0), !.im = @ + (IF n > k THEN 1 ELSE 0), !.io = @ + (n - k)]]
     /\ To(t, IF n = k THEN "done" ELSE "fl")
  /\ Quiet /\ UNCHANGED <<cap, low>>
RemLin(t) ==
  /\ Sil(t, "rem", "new")
  /\ LET p == pend[t]
         k == Cardinality(p.got) IN
     IF p.hit
     THEN /\ k > 0 /\ k = Min2(p.n, used[p.c]) /\ p.got \subseteq held[p.c]
          /\ held' = [held EXCEPT ![p.c] = @ \ p.got] /\ used' = [used EXCEPT ![p.c] = @ - k]
          /\ low' = [low EXCEPT ![p.c] = Min2(@, used[p.c] - k)]
          /\ st' = [st EXCEPT ![p.c] = [@ EXCEPT !.rh = @ + 1, !.ro = @ + k]] /\ To(t, "done")
     ELSE /\ used[p.c] = 0 /\ UNCHANGED <<held, used, low>> /\ To(t, "fl")
          /\ st' = [st EXCEPT ![p.c] = [@ EXCEPT !.rm = @ + 1, !.rmo = @ + p.n]]
  /\ Quiet /\ UNCHANGED cap
Plu(t, tr, lw) ==
  LET p == pend[t]
      k == Min2(Min2(cf[p.c].b, used[p.c]), tr) IN
  IF k = 0 THEN /\ p.i > Len(p.bat) /\ low' = [low EXCEPT ![p.c] = lw] /\ To(t, "done") /\ UNCHANGED <<held, used>>
  ELSE /\ p.i <= Len(p.bat) /\ Len(p.bat[p.i]) = k /\ Rng(p.bat[p.i]) \subseteq held[p.c] /\ Cardinality(Rng(p.bat[p.i])) = k
       /\ held' = [held EXCEPT ![p.c] = @ \ Rng(p.bat[p.i])] /\ used' = [used EXCEPT ![p.c] = @ - k]
       /\ low' = [low EXCEPT ![p.c] = used[p.c] - k]
       /\ pend' = [pend EXCEPT ![t].s = "fl", ![t].tr = tr - k]
PluLin(t) ==
  /\ Sil(t, "plu", "new") /\ Plu(t, low[pend[t].c], used[pend[t].c]) /\ Quiet /\ UNCHANGED <<cap, st>>
PluMore(t) ==
  /\ Sil(t, "plu", "re") /\ Plu(t, pend[t].tr, low[pend[t].c]) /\ Quiet /\ UNCHANGED <<cap, st>>
\* the lock was busy
PluBusy(t) == /\ l <= Len(Trace) /\ pend[t].k = "plu" /\ pend[t].s \in {"new", "re"} /\ Others(t) # {} /\ pend[t].i > Len(pend[t].bat)
              /\ To(t, "done") /\ Quiet /\ UNCHANGED <<used, held, cap, low, st>>
ShrLin(t) ==
  /\ Sil(t, "shr", "new")
  /\ LET p == pend[t]
         b == cf[p.c].b
         v == Max2(0, b - (cap[p.c] - used[p.c])) IN
     IF cap[p.c] <= b THEN ~p.ok /\ p.ev = {} /\ UNCHANGED <<held, used, cap, low>> /\ To(t, "done")
     ELSE /\ p.ok /\ Cardinality(p.ev) = v /\ p.ev \subseteq held[p.c]
          /\ held' = [held EXCEPT ![p.c] = @ \ p.ev] /\ used' = [used EXCEPT ![p.c] = @ - v]
          /\ cap' = [cap EXCEPT ![p.c] = @ - b]
          /\ low' = [low EXCEPT ![p.c] = Min2(@, used[p.c] - v)] /\ To(t, IF v = 0 THEN "done" ELSE "fl")
  /\ Quiet /\ UNCHANGED st
GroLin(t) ==
  /\ Sil(t, "gro", "new")
  /\ LET p == pend[t] IN
     /\ p.ok = (cap[p.c] + cf[p.c].b <= MX(p.c))
     /\ cap' = IF p.ok THEN [cap EXCEPT ![p.c] = @ + cf[p.c].b] ELSE cap
  /\ To(t, "done") /\ Quiet /\ UNCHANGED <<used, held, low, st>>
\* --- hand-over to and from the next tier
PassSc(c) == IF MX(c) = 0 /\ on.lazy THEN 0 ELSE cf[c].sc
FlIn == /\ IsOp("flin") /\ LET p == pend[e.t]
                               S == Rng(e.ids) IN
           /\ p.k \in {"ins", "plu", "shr"} /\ p.s = "fl" /\ Cardinality(S) = Len(e.ids) /\ S # {} /\ e.sc = cf[p.c].sc
           /\ CASE p.k = "ins" -> S \subseteq p.rest /\ pend' = [pend EXCEPT ![e.t].rest = @ \ S, ![e.t].s = IF S = p.rest THEN "done" ELSE "fl"]
                [] p.k = "shr" -> S \subseteq p.ev /\ pend' = [pend EXCEPT ![e.t].ev = @ \ S, ![e.t].s = IF S = p.ev THEN "done" ELSE "fl"]
                [] p.k = "plu" -> S = Rng(p.bat[p.i]) /\ pend' = [pend EXCEPT ![e.t].s = "re", ![e.t].i = @ + 1]
           /\ fl' = [fl EXCEPT ![e.sc] = @ \cup S]
        /\ UNCHANGED <<cf, kind, on, used, held, cap, low, own, made, st, com, ov>>
FlOut == /\ IsOp("flout") /\ LET p == pend[e.t]
                                S == Rng(e.ids) IN
            /\ p.k = "rem" /\ p.s = "fl" /\ e.n = p.n /\ e.sc = cf[p.c].sc /\ S = p.got
            /\ (\A o \in S : o \in fl[e.sc] \/ o > made) = TRUE
            /\ made' = IF S = {} THEN made ELSE Max2(made, Max(S))
            /\ fl' = [fl EXCEPT ![e.sc] = @ \ S] /\ To(e.t, "done")
         /\ UNCHANGED <<cf, kind, on, used, held, cap, low, own, st, com, ov>>
Ret == /\ IsOp("ret") /\ LET p == pend[e.t] IN
          /\ p.k # "idle" /\ p.s = "done" /\ pend' = [pend EXCEPT ![e.t] = Idle]
          /\ own' = IF p.k = "rem" THEN [own EXCEPT ![p.c] = @ \cup p.got] ELSE own
       /\ UNCHANGED <<cf, kind, on, used, held, cap, low, fl, made, st, com, ov>>
Still == \A t \in T : pend[t].k = "idle"
Same == UNCHANGED <<cf, kind, on, used, held, cap, low, own, fl, made, st, com, pend, ov>>
Move == /\ IsOp("move") /\ Still /\ cf[e.from].sc = cf[e.to].sc /\ Rng(e.ids) \subseteq own[e.from]
        /\ own' = [own EXCEPT ![e.from] = @ \ Rng(e.ids), ![e.to] = @ \cup Rng(e.ids)]
        /\ UNCHANGED <<cf, kind, on, used, held, cap, low, fl, made, st, com, pend, ov>>
\* counters updated outside the lock may lose increments when operations overlapped
Cnt(a, b) == IF ov THEN a <= b ELSE a = b
State == /\ IsOp("state") /\ Still /\ Same
         /\ LET c == e.c
                s == st[e.c] IN
            /\ e.used = used[c] /\ e.len = used[c] /\ e.sused = used[c] /\ e.cap = cap[c] /\ e.scap = cap[c] /\ e.max = MX(c) /\ e.mx = MX(c)
            /\ e.ih = s.ih /\ e.rh = s.rh /\ e.ro = s.ro
            /\ Cnt(e.im, s.im) /\ Cnt(e.io, s.io) /\ Cnt(e.rm, s.rm) /\ Cnt(e.rmo, s.rmo)
            /\ e.can = (MX(c) - cap[c] >= cf[c].b) /\ e.spare = (cap[c] - used[c] >= cf[c].b)
Mis(c) == st[c].io + st[c].rmo
Commit == /\ IsOp("commit") /\ Still /\ e.v = Mis(e.c) - com[e.c] /\ com' = [com EXCEPT ![e.c] = Mis(e.c)]
          /\ UNCHANGED <<cf, kind, on, used, held, cap, low, own, fl, made, st, pend, ov>>
\* --- resizing: order holds the classes of one group by misses (most first), ties by class
Before(a, b) == LET x == Mis(a) - com[a]
                    y == Mis(b) - com[b] IN x > y \/ (x = y /\ a < b)
Order(lo, n) == LET G == lo .. lo + n - 1 IN
  [i \in 1 .. n |-> CHOOSE c \in G : Cardinality({ d \in G : Before(d, c) }) = i - 1]
RECURSIVE Loop(_, _, _, _, _, _)
Loop(o, g, s, x, grown, lim) ==       \* x: [cap, used] of the classes
  IF ~(g < s) \/ grown = lim THEN x
  ELSE IF MX(o[g]) - x.cap[o[g]] < cf[o[g]].b THEN Loop(o, g + 1, s, x, grown, lim)
  ELSE IF Mis(o[g]) = com[o[g]] THEN x
  ELSE LET SS == { j \in g + 1 .. s : x.cap[o[j]] > cf[o[j]].b }
           s2 == IF SS = {} THEN g ELSE Max(SS)
           d == o[s2]
           b == cf[d].b
           v == Max2(0, b - (x.cap[d] - x.used[d]))
           x1 == IF SS = {} THEN x ELSE [cap |-> [x.cap EXCEPT ![d] = @ - b], used |-> [x.used EXCEPT ![d] = @ - v], ev |-> [x.ev EXCEPT ![d] = @ + v]]
           GG == { j \in g .. s2 - 1 : x1.cap[o[j]] + cf[o[j]].b <= MX(o[j]) }
           g2 == IF GG = {} THEN s2 ELSE Min(GG)
           x2 == IF GG = {} THEN x1 ELSE [x1 EXCEPT !.cap[o[g2]] = @ + cf[o[g2]].b] IN
       Loop(o, g2 + 1, s2 - 1, x2, IF GG = {} THEN grown ELSE grown + 1, lim)
RECURSIVE Groups(_, _, _)
Groups(i, x, n) == IF i > Len(e.groups) THEN x ELSE Groups(i + 1, Loop(Order(e.groups[i], n), 1, n, x, 0, e.maxr), n)
Resize == /\ IsOp("resize") /\ Still
          /\ LET x == Groups(1, [cap |-> cap, used |-> used, ev |-> [c \in C |-> 0]], e.base) IN
             /\ \A c \in C : /\ e.r[c].cap = x.cap[c] /\ Len(e.r[c].ev) = x.ev[c]
                             /\ Rng(e.r[c].ev) \subseteq held[c] /\ Cardinality(Rng(e.r[c].ev)) = x.ev[c]
             /\ cap' = x.cap /\ used' = x.used /\ low' = [c \in C |-> Min2(low[c], x.used[c])]
             /\ held' = [c \in C |-> held[c] \ Rng(e.r[c].ev)]
             /\ fl' = [s \in DOMAIN fl |-> fl[s] \cup UNION { Rng(e.r[c].ev) : c \in { d \in C : cf[d].sc = s } }]
          /\ com' = [c \in C |-> IF \E i \in DOMAIN e.groups : c \in e.groups[i] .. e.groups[i] + e.base - 1 THEN Mis(c) ELSE com[c]]
          /\ UNCHANGED <<cf, kind, on, own, made, st, pend, ov>>
\* --- the sharded manager
Sum(S, f(_)) == MapThenSumSet(f, S)
PlAll == /\ IsOp("plall") /\ Still
         /\ \A i \in DOMAIN e.bat : Len(e.bat[i].ids) = Cardinality(Rng(e.bat[i].ids))
         /\ LET gone(c) == UNION { Rng(e.bat[i].ids) \cap held[c] : i \in { j \in DOMAIN e.bat : e.bat[j].sc = cf[c].sc } }
                all == UNION { Rng(e.bat[i].ids) : i \in DOMAIN e.bat } IN
            /\ all \subseteq UNION { gone(c) : c \in C }
            /\ Sum(DOMAIN e.bat, LAMBDA i : Len(e.bat[i].ids)) = Cardinality(all)
            /\ (\A i \in DOMAIN e.bat : \E c \in C : cf[c].sc = e.bat[i].sc /\ Len(e.bat[i].ids) <= cf[c].b) = TRUE
            /\ \A c \in C : Cardinality(gone(c)) = (IF on.init[ShardOf(c)] THEN low[c] ELSE 0)
            /\ held' = [c \in C |-> held[c] \ gone(c)] /\ used' = [c \in C |-> used[c] - low[c]] /\ low' = used'
            /\ fl' = [s \in DOMAIN fl |-> fl[s] \cup UNION { gone(c) : c \in { d \in C : cf[d].sc = s } }]
         /\ UNCHANGED <<cf, kind, on, cap, own, made, st, com, pend, ov>>
SState ==
  /\ IsOp("sstate") /\ Still /\ Same
  /\ LET live(c) == on.init[ShardOf(c)] IN
     /\ \A c \in C : e.len[c] = used[c]
     /\ \A s \in 1 .. on.shards : (e.init[s] = 1) = on.init[s]
     /\ e.active = Cardinality({ s \in 1 .. on.shards : on.init[s] })
     /\ e.bytes = Sum(C, LAMBDA c : used[c] * cf[c].size)
     /\ \A k \in 1 .. NC :
        LET R == { c \in C : cf[c].sc = k - 1 /\ live(c) }
            s == e.st[k] IN
        /\ e.tot[k] = Sum(R, LAMBDA c : used[c]) /\ s.used = e.tot[k]
        /\ s.cap = Sum(R, LAMBDA c : cap[c]) /\ s.max = Sum(R, LAMBDA c : MX(c))
        /\ s.ih = Sum(R, LAMBDA c : st[c].ih) /\ s.im = Sum(R, LAMBDA c : st[c].im) /\ s.io = Sum(R, LAMBDA c : st[c].io)
        /\ s.rh = Sum(R, LAMBDA c : st[c].rh) /\ s.ro = Sum(R, LAMBDA c : st[c].ro)
        /\ s.rm = Sum(R, LAMBDA c : st[c].rm) /\ s.rmo = Sum(R, LAMBDA c : st[c].rmo)
        /\ (e.use[k] = 1) = (kind = "generic" \/ (kind = "large" /\ cf[k].size >= 4096))
Silent == \E t \in T : InsLin(t) \/ RemLin(t) \/ PluLin(t) \/ PluMore(t) \/ PluBusy(t) \/ ShrLin(t) \/ GroLin(t)
Next == Reset \/ InsCall \/ RemCall \/ PluCall \/ ShrCall \/ GroCall \/ FlIn \/ FlOut \/ Ret \/ Move \/ State \/ Commit \/ Resize \/ PlAll \/ SState \/ Silent
Spec == Init /\ [][Next]_tvars
\* the abstract invariants hold along every accepted history
Good == \A c \in C : 0 <= low[c] /\ low[c] <= used[c] /\ used[c] <= cap[c] /\ cap[c] <= MX(c)
Track == Good /\ (IF TLCGet(1) < l THEN TLCSet(1, l) ELSE TRUE)
ASSUME TLCSet(1, 1)
Accepted == PrintT(<<"TRACE", TLCGet(1) - 1, Len(Trace)>>)
=============================================================================
