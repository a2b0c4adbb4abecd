--------------------------- MODULE TimeSeriesTrace ---------------------------
(* Real sliding-window statistics under a mocked clock; times are epoch numbers, windows numbers of epochs. *)
EXTENDS TimeSeries, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, s, k, tot, cor, pend
\* p: parameters of the object; s: the series; k: the series of skipped decisions; tot, cor, pend: <<pages, count>>
vars == <<l, p, s, k, tot, cor, pend>>
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Zero == <<0, 0>>
Plus(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Init == l = 1 /\ p = <<>> /\ s = Fresh(0) /\ k = Fresh(0) /\ tot = Zero /\ cor = Zero /\ pend = Zero
Keep == UNCHANGED <<p, s, k, tot, cor, pend>>
New == /\ IsOp("new") /\ p' = e /\ s' = Fresh(e.q) /\ k' = Fresh(e.q)
       /\ tot' = Zero /\ cor' = Zero /\ pend' = Zero
\* folds over the reports of one slot
Fold(d, zero, F(_, _)) == LET f[i \in 0 .. Len(d)] == IF i = 0 THEN zero ELSE F(f[i - 1], d[i]) IN f[Len(d)]
Mx(d) == Fold(Tail(d), d[1], MaxOf)
Mn(d) == Fold(Tail(d), d[1], MinOf)
Pay(d) == IF d = <<>> THEN <<0, 0, 0, 0, 0>> ELSE <<Len(d), d[1], d[Len(d)], Mn(d), Mx(d)>>

Rep == /\ IsOp("rep") /\ e.moved = Moved(s, e.q)
       /\ s' = Put(Tick(s, e.q, p.K), e.v) /\ UNCHANGED <<p, k, tot, cor, pend>>
Base == IsOp("base") /\ s' = Tick(s, e.q, p.K) /\ UNCHANGED <<p, k, tot, cor, pend>>
\* oldest first, only slots with data; the newest slot is number K - 1
Iter == /\ IsOp("iter") /\ Keep
        /\ LET full == SelectSeq([i \in 1 .. Len(s) |-> [i |-> i, s |-> s[Len(s) + 1 - i]]], LAMBDA x : x.s.data # <<>>)
           IN e.r = [i \in 1 .. Len(full) |-> <<p.K - Len(s) + full[i].i - 1, full[i].s.delta, Pay(full[i].s.data)>>]
Back == /\ IsOp("back") /\ Keep
        /\ LET w == InWindow(s, e.need) IN e.r = [i \in 1 .. Len(w) |-> <<i - 1, w[i].delta, Pay(w[i].data)>>]
Recent == /\ IsOp("recent") /\ Keep
          /\ e.ago = s[1].delta
          /\ e.r = IF Len(s) > 1 THEN Pay(s[2].data) ELSE <<0, 0, 0, 0, 0>>

\* all reports of a window
Datas(w) == LET x == SelectSeq(w, LAMBDA y : y.data # <<>>) IN [i \in 1 .. Len(x) |-> x[i].data]
MRep == IsOp("mrep") /\ s' = Put(Tick(s, e.q, p.K), e.v) /\ UNCHANGED <<p, k, tot, cor, pend>>
MaxT == /\ IsOp("max") /\ Keep
        /\ LET D == Datas(InWindow(s, e.need)) IN e.r = (IF D = <<>> THEN 0 ELSE Mx([i \in 1 .. Len(D) |-> Mx(D[i])]))
MinT == /\ IsOp("min") /\ Keep
        /\ LET D == Datas(InWindow(s, e.need)) IN e.r = (IF D = <<>> THEN 0 ELSE Mn([i \in 1 .. Len(D) |-> Mn(D[i])]))

(* Skipped decisions: the decisions of an epoch form a batch [pages, count, at, done], counted correct once, *)
(* by the first peak of a later epoch that reaches it within the interval.                                   *)
Pages(d) == Fold([i \in 1 .. Len(d) |-> d[i].pages], 0, LAMBDA a, b : a + b)
At(d) == Mx([i \in 1 .. Len(d) |-> d[i].at])
Sum(w) == Fold([i \in 1 .. Len(w) |-> <<Pages(w[i].data), Len(w[i].data)>>], Zero, Plus)
Batches(w) == SelectSeq(w, LAMBDA x : x.data # <<>> /\ x.data[1].open)
Close(d) == [i \in 1 .. Len(d) |-> [d[i] EXCEPT !.open = FALSE]]
Decide(ks, t, pd, pages, at, q) ==
  /\ k' = Put(Tick(ks, q, p.K), [pages |-> pages, at |-> at, open |-> TRUE])
  /\ tot' = Plus(t, <<pages, 1>>) /\ pend' = Plus(pd, <<pages, 1>>) /\ cor' = cor
Confirm(q, peak) ==
  LET k1 == Tick(k, q, p.K)
      near(x) == x.ep # k1[1].ep /\ k1[1].ep - x.ep <= p.ci
      hit == SelectSeq(k1, LAMBDA x : near(x) /\ x.data # <<>> /\ x.data[1].open /\ At(x.data) <= peak)
      left == SelectSeq(k1, LAMBDA x : x.data # <<>> /\ x.data[1].open /\ (x.ep = k1[1].ep \/ (near(x) /\ At(x.data) > peak)))
  IN /\ cor' = Plus(cor, Sum(hit)) /\ pend' = Sum(left) /\ tot' = tot
     /\ k' = [i \in 1 .. Len(k1) |-> IF near(k1[i]) /\ k1[i].data # <<>> /\ At(k1[i].data) <= peak
                                     THEN [k1[i] EXCEPT !.data = Close(@)] ELSE k1[i]]
Counts == /\ <<e.tp, e.tc>> = tot' /\ <<e.cp, e.cc>> = cor' /\ <<e.pp, e.pc>> = pend'
Skip == IsOp("skip") /\ Decide(k, tot, pend, e.pages, e.at, e.q) /\ Counts /\ UNCHANGED <<p, s>>
Upd == IsOp("upd") /\ Confirm(e.q, e.peak) /\ Counts /\ UNCHANGED <<p, s>>

(* the subrelease statistics: reports <<demand, free backed, free unbacked>> *)
Col(d, c) == [i \in 1 .. Len(d) |-> IF c = 0 THEN d[i][2] + d[i][3] ELSE d[i][c]]
SRep == /\ IsOp("srep") /\ UNCHANGED p
        /\ LET s1 == Put(Tick(s, e.q, p.K), <<e.a, e.f, e.u>>) IN
           /\ s' = s1
           /\ IF Moved(s, e.q) /\ pend[2] > 0
              THEN Confirm(e.q, IF s1[1].delta <= p.se /\ Len(s1) > 1 /\ s1[2].data # <<>> THEN MaxOf(e.a, Mx(Col(s1[2].data, 1))) ELSE e.a)
              ELSE UNCHANGED <<k, tot, cor, pend>>
        /\ Counts
SSkip == /\ IsOp("sskip") /\ UNCHANGED <<p, s>>
         /\ IF e.pages = 0 THEN UNCHANGED <<k, tot, cor, pend>> ELSE Decide(k, tot, pend, e.pages, e.at, e.q)
         /\ Counts
Over(w, c, F(_), G(_)) == LET D == Datas(w) IN IF D = <<>> THEN 0 ELSE F([i \in 1 .. Len(D) |-> G(Col(D[i], c))])
Capped(n) == IF n = -1 THEN p.K ELSE MinOf(n, p.K)
PeakOf(n) == Over(InWindow(s, n), 1, Mx, Mx)
Peak == IsOp("peak") /\ Keep /\ e.r = PeakOf(Capped(e.need))
Swing(d) == Mx(d) - Mn(d)
Demand == /\ IsOp("demand") /\ Keep
          /\ LET inf == 1000000
                 n(x) == IF x = -1 THEN inf ELSE x
                 sh == IF e.s # 0 /\ e.l # 0 THEN MinOf(n(e.s), n(e.l)) ELSE n(e.s)
                 trend == Over(InWindow(s, MinOf(sh, p.K)), 1, Mx, Swing) + Over(InWindow(s, Capped(e.l)), 1, Mx, Mn)
             IN e.r = MinOf(PeakOf(IF e.p = -2 THEN p.cap ELSE e.p), trend)
MinFree == /\ IsOp("minfree") /\ Keep
           /\ e.f = Over(InWindow(s, e.need), 0, Mn, Mn) /\ e.b = Over(InWindow(s, e.need), 2, Mn, Mn)
Frag == IsOp("frag") /\ Keep /\ e.r = Over(InWindow(s, p.ci), 2, Mn, Mn)
Next == New \/ Rep \/ Base \/ Iter \/ Back \/ Recent \/ MRep \/ MaxT \/ MinT \/ Skip \/ Upd
        \/ SRep \/ SSkip \/ Peak \/ Demand \/ MinFree \/ Frag
Spec == Init /\ [][Next]_vars
Consistent == cor[1] + pend[1] <= tot[1] /\ cor[2] + pend[2] <= tot[2]
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
