--------------------------- MODULE HugeRegionTrace ---------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NH == Trace[1].NH
PH == Trace[1].PH
R == INSTANCE HugeRegion WITH NH <- NH, PH <- PH
VARIABLES l, more, regs, live, tot, low
\* regs: the regions; live: <<region, start, length>> of every run handed out; tot: per region <<pages used, huge pages ever unbacked>>
vars == <<l, more, regs, live, tot, low>>
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Init == l = 1 /\ more = FALSE /\ regs = <<>> /\ live = {} /\ tot = <<>> /\ low = 0
Dim == IsOp("dim") /\ UNCHANGED <<more, regs, live, tot, low>>
NewSet == IsOp("new") /\ more' = e.more /\ regs' = <<>> /\ live' = {} /\ tot' = <<>> /\ low' = 0
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
FB(rs) == SumTo([i \in 1 .. Len(rs) |-> rs[i].fb], Len(rs))
Unm(r) == (NH - Cardinality(r.backed)) * PH
Obs == /\ Len(e.regs) = Len(regs')
       /\ \A i \in 1 .. Len(regs') :
            LET r == regs'[i] IN
            e.regs[i] = <<tot'[i][1], NH * PH - Unm(r) - tot'[i][1], Unm(r), Cardinality(r.backed), r.fb>>
       /\ e.nr = Len(regs') /\ e.sys = Len(regs') * NH * PH
       /\ e.free = SumTo([i \in 1 .. Len(regs') |-> e.regs[i][2]], Len(regs'))
       /\ e.unm = SumTo([i \in 1 .. Len(regs') |-> e.regs[i][3]], Len(regs'))
       /\ e.fb = FB(regs')
Contribute == /\ IsOp("contribute") /\ e.g = Len(regs)
              /\ regs' = Append(regs, R!New) /\ tot' = Append(tot, <<0, 0>>)
              /\ UNCHANGED <<more, live, low>> /\ Obs
Fits(n) == {i \in 1 .. Len(regs) : R!Longest(regs[i]) >= n}
GetOp == /\ IsOp("get") /\ e.nub = 0
         /\ IF e.ok
            THEN LET i == e.g + 1 IN
                 /\ i \in 1 .. Len(regs)
                 /\ R!CanGet(regs[i], e.a, e.n)                             \* inside the region, all unused
                 /\ \A j \in Fits(e.n) : R!Longest(regs[i]) <= R!Longest(regs[j])     \* the most fragmented region that fits
                 /\ e.rel = R!FromReleased(regs[i], e.a, e.n)
                 /\ regs' = [regs EXCEPT ![i] = R!Get(@, e.a, e.n)]
                 /\ tot' = [tot EXCEPT ![i][1] = @ + e.n]
                 /\ live' = live \cup {<<e.g, e.a, e.n>>}
                 /\ low' = R!Min2(low, FB(regs'))
            ELSE Fits(e.n) = {} /\ UNCHANGED <<regs, tot, live, low>>
         /\ UNCHANGED more /\ Obs
\* a list of unback calls on region g: the huge pages tried and those that lost their memory
Hs(x) == x.h .. x.h + x.n - 1
Tried(ub) == UNION {Hs(ub[i]) : i \in DOMAIN ub}
Lost(ub) == UNION {Hs(ub[i]) : i \in {i \in DOMAIN ub : ub[i].ok}}
Distinct(ub) == SumTo([i \in 1 .. Len(ub) |-> ub[i].n], Len(ub)) = Cardinality(Tried(ub))
PutOp == /\ IsOp("put") /\ e.ok /\ <<e.g, e.a, e.n>> \in live
         /\ LET i == e.g + 1  em == R!Emptied(regs[i], e.a, e.n) IN
            /\ \A j \in DOMAIN e.ub : e.ub[j].g = e.g
            /\ Distinct(e.ub)
            /\ Tried(e.ub) = IF more THEN {} ELSE em             \* released at once unless releasing is left to the background
            /\ regs' = [regs EXCEPT ![i] = R!Unback(R!Put(@, e.a, e.n), Lost(e.ub))]
            /\ tot' = [tot EXCEPT ![i] = <<@[1] - e.n, @[2] + Cardinality(Lost(e.ub))>>]
         /\ live' = live \ {<<e.g, e.a, e.n>>}
         /\ UNCHANGED <<more, low>> /\ Obs
PutX == IsOp("putx") /\ ~e.ok /\ UNCHANGED <<more, regs, live, tot, low>> /\ Obs
(* Releasing T pages: region by region until at least T pages are released, in each as many huge pages as  *)
(* are still wanted or as it has free; only backed huge pages without a used page, each tried once.        *)
Ceil(a, b) == (a + b - 1) \div b
RECURSIVE Walk(_, _, _, _, _, _)
Walk(ub, i, T, done, left, succ) ==
  LET more2 == succ * PH < T IN
  IF i > Len(ub) THEN left = 0 /\ (more2 => \A g \in 1 .. Len(regs) : g \in done \/ regs[g].fb = 0)
  ELSE LET g == ub[i].g + 1  new == g \notin done
           l0 == IF new THEN R!Min2(regs[g].fb, Ceil(T - succ * PH, PH)) ELSE left IN
       /\ g \in 1 .. Len(regs)
       /\ new => left = 0 /\ more2
       /\ ~new => ub[i - 1].g = ub[i].g
       /\ ub[i].n <= l0
       /\ Walk(ub, i + 1, T, done \cup {g}, l0 - ub[i].n, succ + (IF ub[i].ok THEN ub[i].n ELSE 0))
Of(g) == SelectSeq(e.ub, LAMBDA x : x.g = g - 1)
ReleaseOp == /\ IsOp("release")
             /\ \E T \in (IF e.hit THEN {e.desired} ELSE IF e.adaptive THEN {low * PH} ELSE {(FB(regs) * PH) \div 10}) : Walk(e.ub, 1, T, {}, 0, 0)
             /\ \A g \in 1 .. Len(regs) : Distinct(Of(g)) /\ Tried(Of(g)) \subseteq R!Releasable(regs[g])
             /\ regs' = [g \in 1 .. Len(regs) |-> R!Unback(regs[g], Lost(Of(g)))]
             /\ tot' = [g \in 1 .. Len(regs) |-> <<tot[g][1], tot[g][2] + Cardinality(Lost(Of(g)))>>]
             /\ e.r = (FB(regs) - FB(regs')) * PH
             /\ low' = FB(regs')
             /\ UNCHANGED <<more, live>> /\ Obs
RECURSIVE AllSpans(_)
AllSpans(i) == IF i = 0 THEN <<>> ELSE R!Spans(regs[i], regs[i].free) \o AllSpans(i - 1)
SpansOp == /\ IsOp("spans") /\ UNCHANGED <<more, regs, live, tot, low>>
           /\ LET s == AllSpans(Len(regs))
                  small == {i \in DOMAIN s : s[i][1] < e.max}
                  large == DOMAIN s \ small
                  Cnt(n, rel) == Cardinality({i \in small : s[i] = <<n, rel>>})
                  Pg(rel) == LET x == SelectSeq(s, LAMBDA y : y[1] >= e.max /\ y[2] = rel) IN SumTo([i \in 1 .. Len(x) |-> x[i][1]], Len(x)) IN
              /\ {s[i][1] : i \in small} = {e.small[i][1] : i \in DOMAIN e.small}
              /\ \A i \in DOMAIN e.small : e.small[i] = <<e.small[i][1], Cnt(e.small[i][1], FALSE), Cnt(e.small[i][1], TRUE)>>
              /\ e.large = Cardinality(large) /\ e.normal = Pg(FALSE) /\ e.returned = Pg(TRUE)
\* the used pages of one huge page, as runs; reported clear when it is not backed
StatusOp == /\ IsOp("status") /\ UNCHANGED <<more, regs, live, tot, low>>
            /\ e.ok = (e.h >= 0 /\ e.h < NH)
            /\ e.ok => LET r == regs[e.g + 1]
                           pg == e.h * PH .. (e.h + 1) * PH - 1
                           fr == {f \in r.free : f[1] < (e.h + 1) * PH /\ f[1] + f[2] > e.h * PH}
                           set == {p \in pg : \A f \in fr : p < f[1] \/ p >= f[1] + f[2]} IN
                       UNION {e.set[i][1] .. e.set[i][1] + e.set[i][2] - 1 : i \in DOMAIN e.set} = IF e.h \in r.backed THEN set ELSE {}
\* text and machine-readable figures; regions are listed by increasing longest free run
Row(g) == <<tot[g][1], NH * PH - Unm(regs[g]) - tot[g][1], R!Longest(regs[g]), NH - Cardinality(regs[g].backed), tot[g][2], regs[g].fb>>
PrintOp == /\ IsOp("print") /\ UNCHANGED <<more, regs, live, tot, low>>
           /\ e.low = low /\ e.t_low = low /\ e.t_n = Len(regs) /\ e.t_all = Len(regs) * NH
           /\ e.t_b = SumTo([g \in 1 .. Len(regs) |-> Cardinality(regs[g].backed)], Len(regs)) /\ e.t_fb = FB(regs)
           /\ e.t_free = SumTo([g \in 1 .. Len(regs) |-> Row(g)[2]], Len(regs))
           /\ Len(e.regs) = Len(regs)
           /\ \A g \in 1 .. Len(regs) : Cardinality({i \in DOMAIN e.regs : e.regs[i] = Row(g)}) = Cardinality({h \in DOMAIN regs : Row(h) = Row(g)})
           /\ \A i \in 1 .. Len(e.regs) - 1 : e.regs[i][3] <= e.regs[i + 1][3]
Next == Dim \/ NewSet \/ Contribute \/ GetOp \/ PutOp \/ PutX \/ ReleaseOp \/ SpansOp \/ StatusOp \/ PrintOp
TSpec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
===============================================================================
