----------------------------- MODULE FillerTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
PH == Trace[1].PH
HW == Trace[1].HW
F == INSTANCE Filler WITH PH <- PH
VARIABLES l, mode, T, freed, unacc, tr
\* T: the huge pages the filler holds, by number; freed: emptied while under treatment; unacc: pages released but not yet credited to a release request
\* tr: the treatment in progress: huge pages examined so far and what was seen
vars == <<l, mode, T, freed, unacc, tr>>
Off == [on |-> FALSE, q |-> <<>>, scan |-> {}, col |-> -1, cands |-> {}, c |-> FALSE, u |-> FALSE, st |-> FALSE]
e == Trace[l]
IsOp(o) == l <= Len(Trace) /\ e.op = o /\ l' = l + 1
Init == l = 1 /\ mode = FALSE /\ T = <<>> /\ freed = {} /\ unacc = 0 /\ tr = Off
Dim == IsOp("dim") /\ UNCHANGED <<mode, T, freed, unacc, tr>>
NewF == IsOp("new") /\ mode' = e.mode /\ T' = <<>> /\ freed' = {} /\ unacc' = 0 /\ tr' = Off
Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
K(h) == F!Kind(T[h], mode)
Sum(S, Op(_)) == MapThenSumSet(Op, S)
ToSet(runs) == UNION {F!Pages(runs[i][1], runs[i][2]) : i \in DOMAIN runs}
NAlloc(t) == Cardinality(t.live)
(* ---- what is reported, from the pages ---- *)
Obs ==
  LET D == DOMAIN T' \ freed'
      t == T'
      k == [h \in D |-> F!Kind(t[h], mode')]
      In(d) == {h \in D : t[h].dense = d}
      Row(S) == LET full == Cardinality({h \in S : k[h] = "regular" /\ t[h].nu = PH})
                    pr == Cardinality({h \in S : k[h] = "partial"})
                    fr == Cardinality({h \in S : k[h] = "released"}) IN
                <<Cardinality(S), full, Cardinality(S) - full - pr - fr, pr, fr, pr + fr>>
      used(S) == Sum(S, LAMBDA h : t[h].nu)
      unm == Sum(D, LAMBDA h : F!NRel(t[h]))
      free == Cardinality(D) * PH - used(D) - unm
      PR == {h \in D : k[h] = "partial"}
      FR == {h \in D : k[h] = "released"} IN
  /\ e.st = <<Row(In(FALSE)), Row(In(TRUE)), Row(D)>>
  /\ e.k = <<Cardinality(D), used(In(FALSE)), used(In(TRUE)), free, unm, used(FR), used(PR), Cardinality({h \in D : t[h].wr}),
             Cardinality(PR \cup FR) * PH - used(PR \cup FR) - unm, Cardinality(D) * PH, free, unm>>
PgIs(h, t) ==
  /\ e.pg.h = h /\ {e.pg.free[i] : i \in DOMAIN e.pg.free} = t.free /\ ToSet(e.pg.rel) = t.rel
  /\ e.pg.nu = t.nu /\ e.pg.nf = PH - t.nu /\ e.pg.nr = F!NRel(t) /\ e.pg.na = NAlloc(t) /\ e.pg.lf = F!Longest(t)
  /\ e.pg.o = t.obj /\ e.pg.wr = t.wr
  /\ (t.nu > 0 => e.pg.don = t.don)
Pg(h) == IF h \in DOMAIN T' THEN PgIs(h, T'[h]) ELSE TRUE
(* ---- operations ---- *)
Contribute == /\ IsOp("contribute") /\ e.h \notin DOMAIN T
              /\ LET t == F!New(e.dense, e.don)  t1 == [F!Get(t, e.a, e.n, e.o) EXCEPT !.don = e.don] IN
                 /\ F!CanGet(t, e.a, e.n)
                 /\ T' = T @@ (e.h :> (t1 @@ [mhb |-> FALSE, seen |-> FALSE]))
              /\ UNCHANGED <<mode, freed, unacc, tr>> /\ Obs /\ Pg(e.h)
\* where a request is placed: an already used huge page, else a donated one, else one with released pages; the least spare room first
Cap(n) == IF n <= 1 THEN 0 ELSE IF n <= 2 THEN 1 ELSE IF n <= 4 THEN 2 ELSE IF n <= 8 THEN 3 ELSE IF n <= 16 THEN 4 ELSE IF n <= 32 THEN 5 ELSE IF n <= 64 THEN 6 ELSE 7
Rank(k) == CASE k = "regular" -> 1 [] k = "donated" -> 2 [] k = "partial" -> 3 [] k = "released" -> 4
Better(a, b) ==      \* a is preferred over b, both able to serve
  LET ka == Rank(K(a))  kb == Rank(K(b))  la == F!Longest(T[a])  lb == F!Longest(T[b]) IN
  \/ ka < kb
  \/ ka = kb /\ IF T[a].dense THEN NAlloc(T[a]) > NAlloc(T[b])
                ELSE la < lb \/ (la = lb /\ ka # 2 /\ Cap(NAlloc(T[a])) > Cap(NAlloc(T[b])))
GetOp ==
  /\ IsOp("get") /\ e.same
  /\ LET Can == {h \in DOMAIN T \ freed : T[h].dense = e.dense /\ F!Longest(T[h]) >= e.n} IN
     IF e.ok
     THEN /\ e.h \in Can /\ F!CanGet(T[e.h], e.a, e.n)
          /\ \A h \in Can : ~Better(h, e.h)
          /\ LET t == T[e.h]  was == K(e.h) \in {"partial", "released"}  t1 == F!Get(t, e.a, e.n, e.o) IN
             /\ e.rel = was
             /\ T' = [T EXCEPT ![e.h] = IF was /\ t1.rel = {} THEN [t1 EXCEPT !.wr = TRUE] ELSE t1]
          /\ Pg(e.h)
     ELSE Can = {} /\ UNCHANGED T
  /\ UNCHANGED <<mode, freed, unacc, tr>> /\ Obs
PutOp ==
  /\ IsOp("put") /\ e.h \in DOMAIN T /\ e.h \notin freed /\ <<e.a, e.n, e.o>> \in T[e.h].live
  /\ LET t == T[e.h]  t2 == F!Put(t, e.a, e.n, e.o)  nr == F!NRel(t2)
         part == t2.nu = 0 /\ nr > 0 /\ nr < PH IN
     /\ t2.nu > 0 => ~e.back
     /\ t2.nu = 0 => (e.back \/ tr.on) /\ (e.back => e.h \notin DOMAIN tr.q)
     \* an emptied huge page with some pages released is released as a whole
     /\ IF part THEN Len(e.ub) = 1 /\ SubSeq(e.ub[1], 1, 3) = <<e.h, 0, PH>> ELSE e.ub = <<>>
     /\ unacc' = unacc + (IF part /\ e.ub[1][4] = 1 THEN PH - nr ELSE 0)
     /\ T' = IF e.back THEN Without(T, e.h) ELSE [T EXCEPT ![e.h] = IF t2.nu = 0 THEN [t2 EXCEPT !.wr = FALSE] ELSE t2]
     /\ freed' = IF t2.nu = 0 /\ ~e.back THEN freed \cup {e.h} ELSE freed
     /\ tr' = [tr EXCEPT !.scan = @ \ (IF t2.nu = 0 THEN {e.h} ELSE {})]
  /\ UNCHANGED mode /\ Obs /\ Pg(e.h)
(* ---- releasing ---- *)
Less(a, b) == T[a].nu < T[b].nu \/ (T[a].nu = T[b].nu /\ ~T[a].dense /\ T[b].dense)
Cand == {h \in DOMAIN T \ freed : F!Releasable(T[h]) # {} /\ h # tr.col}
UbPages(S) == UNION {F!Pages(e.ub[i][2], e.ub[i][3]) : i \in S}
Idx(h) == {i \in DOMAIN e.ub : e.ub[i][1] = h}
OkIdx(h) == {i \in DOMAIN e.ub : e.ub[i][1] = h /\ e.ub[i][4] = 1}
Len3(S) == Sum(S, LAMBDA i : e.ub[i][3])
Lost(h) == UbPages(OkIdx(h))
HsOf == {e.ub[i][1] : i \in DOMAIN e.ub}
ReleasedT(Hs) == [h \in DOMAIN T |->
  IF h \in Hs /\ h \notin freed
  THEN LET P == Lost(h)  t2 == F!Release(T[h], P) IN [t2 EXCEPT !.wr = @ /\ t2.rel = {}, !.mhb = @ /\ P = {}]
  ELSE T[h]]
RECURSIVE Walk(_, _, _)
\* without failing calls: best candidates first, each released completely, only while more is wanted
Walk(i, done, got) ==
  IF i > Len(e.ub) THEN <<done, got>>
  ELSE LET h == e.ub[i][1]
           left == Cand \ done
           g(x) == IF K(x) = "partial" THEN 1 ELSE 2
           n == Cardinality(Idx(h)) IN
       IF /\ h \in left
          /\ \A x \in left : g(x) > g(h) \/ (g(x) = g(h) /\ ~Less(x, h))
          /\ Idx(h) = i .. i + n - 1
       THEN Walk(i + n, done \cup {h}, got + Cardinality(F!Releasable(T[h])))
       ELSE <<{}, -1>>
ReleaseOp ==
  /\ IsOp("release")
  /\ LET parts == {h \in DOMAIN T \ freed : K(h) \in {"partial", "released"}}
         inpart == Sum(parts, LAMBDA h : PH - T[h].nu - F!NRel(T[h]))
         want == IF e.partial /\ ~e.hit THEN F!Max2(e.desired, inpart \div 10) ELSE e.desired
         skip == e.skip /\ ~e.hit
         fails == \E i \in DOMAIN e.ub : e.ub[i][4] = 0
         ok == {i \in DOMAIN e.ub : e.ub[i][4] = 1}
         got == Len3(ok) IN
     /\ HsOf \subseteq Cand
     /\ \A h \in HsOf : /\ UbPages(Idx(h)) = F!Releasable(T[h])                      \* exactly the free pages not yet released
                        /\ Len3(OkIdx(h)) = Cardinality(Lost(h))
                        /\ ~fails => Len3(Idx(h)) = Cardinality(F!Releasable(T[h]))
     \* another huge page is touched only while too little has been released
     /\ \A i \in DOMAIN e.ub : (i = 1 \/ e.ub[i][1] # e.ub[i - 1][1]) => unacc + Len3({j \in ok : j < i}) < want
     /\ ~fails => LET w == Walk(1, {}, 0) IN
                  /\ w[2] = got
                  /\ ~skip => unacc + got >= want \/ w[1] = Cand
     /\ (fails /\ ~skip) => unacc + got >= want \/ HsOf = Cand
     /\ (want > unacc) \/ e.ub = <<>>
     /\ e.r = unacc + got
     /\ T' = ReleasedT(HsOf)
  /\ unacc' = 0 /\ UNCHANGED <<mode, freed, tr>> /\ Obs
(* ---- background treatment ---- *)
Scanned(h) == mode \/ K(h) # "released"
TBegin == /\ IsOp("tbegin") /\ ~tr.on
          /\ LET el == {h \in DOMAIN T : Scanned(h) /\ ~T[h].mhb} IN
             tr' = [on |-> TRUE, q |-> <<>>, col |-> -1, cands |-> el, c |-> e.collapse, u |-> e.unf, st |-> e.stale,
                    scan |-> IF Cardinality(el) <= 64 THEN {h \in el : ~T[h].seen} ELSE {}]
          /\ UNCHANGED <<mode, T, freed, unacc>>
Upd(h, r) == tr' = [tr EXCEPT !.q = (h :> r) @@ @]
IsBacked == /\ IsOp("isbacked") /\ tr.on /\ e.h \in tr.cands /\ e.h \in DOMAIN T /\ e.h \notin DOMAIN tr.q
            /\ Upd(e.h, [huge |-> e.v # 0, ok |-> FALSE, unb |-> {}, nunb |-> 0, nsw |-> 0, stale |-> FALSE])
            /\ UNCHANGED <<mode, T, freed, unacc>>
HwAll(runs) == LET k == HW \div PH IN
               {p \in 0 .. PH - 1 : \E i \in DOMAIN runs : runs[i][1] <= p * k /\ (p + 1) * k <= runs[i][1] + runs[i][2]}
Resid == /\ IsOp("resid") /\ tr.on /\ e.h \in DOMAIN tr.q /\ ~tr.q[e.h].huge
         /\ Upd(e.h, [tr.q[e.h] EXCEPT !.unb = HwAll(e.unb), !.nunb = e.nunb, !.nsw = e.nsw])
         /\ UNCHANGED <<mode, T, freed, unacc>>
Stale == /\ IsOp("stale") /\ tr.on /\ e.h \in DOMAIN tr.q
         /\ Upd(e.h, [tr.q[e.h] EXCEPT !.stale = e.any]) /\ UNCHANGED <<mode, T, freed, unacc>>
\* only a huge page with nothing released and little missing is rebuilt, and nothing is released from it meanwhile
CollapseOp == /\ IsOp("collapse") /\ tr.on /\ e.h \in DOMAIN tr.q /\ ~tr.q[e.h].huge /\ tr.col = -1 /\ tr.c
              /\ tr.u \/ (tr.q[e.h].nsw < 128 /\ tr.q[e.h].nunb < 64)
              /\ T[e.h].rel = {}
              /\ tr' = [tr EXCEPT !.col = e.h] /\ UNCHANGED <<mode, T, freed, unacc>>
Collapsed == /\ IsOp("collapsed") /\ tr.col = e.h /\ T[e.h].rel = {}
             /\ tr' = [tr EXCEPT !.col = -1, !.q[e.h].ok = e.ok] /\ UNCHANGED <<mode, T, freed, unacc>>
TEnd ==
  /\ IsOp("tend") /\ tr.on /\ tr.col = -1
  /\ tr.scan \subseteq DOMAIN tr.q
  /\ LET Q == {h \in DOMAIN tr.q : h \notin freed}
         good(h) == tr.q[h].huge \/ tr.q[h].ok
         sw == {h \in Q : ~good(h) /\ tr.q[h].nsw > 0}
         stl == {h \in Q : ~good(h) /\ tr.q[h].nsw = 0 /\ tr.st /\ tr.q[h].stale}
         rel == sw \cup stl
         After(h) == LET q == tr.q[h]  t == T[h]  t0 == [t EXCEPT !.mhb = good(h), !.seen = TRUE] IN
           IF good(h) THEN IF mode /\ t.brk THEN [t0 EXCEPT !.brk = FALSE, !.don = FALSE] ELSE t0
           ELSE LET t1 == IF h \in rel THEN F!Release(t0, Lost(h)) ELSE t0 IN
                IF mode THEN [F!Release(t1, F!Releasable(t1) \cap q.unb) EXCEPT !.brk = TRUE] ELSE t1
         gained == Sum(Q, LAMBDA h : F!NRel(After(h)) - F!NRel(T[h]))
         rgain(S) == Sum(S, LAMBDA h : Cardinality(Lost(h))) IN
     /\ \A h \in HsOf : h \in rel
     /\ \A h \in rel : UbPages(Idx(h)) = F!Releasable(T[h]) /\ Len3(Idx(h)) = Cardinality(F!Releasable(T[h]))
     /\ e.sw = rgain(sw) /\ e.stl = rgain(stl) /\ e.unb = gained - rgain(rel)
     /\ e.okc = Cardinality({h \in DOMAIN tr.q : tr.q[h].ok}) /\ e.att >= e.okc
     /\ T' = [h \in DOMAIN T \ freed |-> IF h \in Q THEN After(h) ELSE T[h]]
     /\ {e.freed[i] : i \in DOMAIN e.freed} = freed /\ Len(e.freed) = Cardinality(freed)
     /\ unacc' = unacc + gained
  /\ freed' = {} /\ tr' = Off /\ UNCHANGED mode /\ Obs
(* ---- inspection ---- *)
RECURSIVE Cut(_, _, _)
Cut(t, a, n) == IF n = 0 THEN <<>>
  ELSE LET r == a \in t.rel
           ch == {p \in a .. a + n - 1 : (p \in t.rel) # r}
           lim == IF ch = {} THEN a + n ELSE Min(ch) IN
       <<<<lim - a, r>>>> \o Cut(t, lim, a + n - lim)
RECURSIVE AllCut(_, _)
AllCut(t, S) == IF S = {} THEN <<>> ELSE LET f == CHOOSE f \in S : TRUE IN Cut(t, f[1], f[2]) \o AllCut(t, S \ {f})
RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN <<>> ELSE LET h == CHOOSE h \in S : TRUE IN AllCut(T[h], T[h].free) \o Cat(S \ {h})
SpansOp ==
  /\ IsOp("spans") /\ UNCHANGED <<mode, T, freed, unacc, tr>>
  /\ LET s == Cat(DOMAIN T \ freed)
         small == {i \in DOMAIN s : s[i][1] < e.max}
         large == DOMAIN s \ small
         Cnt(n, r) == Cardinality({i \in small : s[i] = <<n, r>>}) IN
     /\ {s[i][1] : i \in small} = {e.small[i][1] : i \in DOMAIN e.small}
     /\ \A i \in DOMAIN e.small : e.small[i] = <<e.small[i][1], Cnt(e.small[i][1], FALSE), Cnt(e.small[i][1], TRUE)>>
     /\ e.large = Cardinality(large)
     /\ e.normal = Sum({i \in large : ~s[i][2]}, LAMBDA i : s[i][1]) /\ e.returned = Sum({i \in large : s[i][2]}, LAMBDA i : s[i][1])
ListOp == /\ IsOp("list") /\ e.dup = 0 /\ {e.hs[i] : i \in DOMAIN e.hs} = DOMAIN T \ freed /\ UNCHANGED <<mode, T, freed, unacc, tr>>
Look == IsOp("look") /\ UNCHANGED <<mode, T, freed, unacc, tr>> /\ Obs /\ Pg(e.pg.h)
Next == Dim \/ NewF \/ Contribute \/ GetOp \/ PutOp \/ ReleaseOp \/ TBegin \/ IsBacked \/ Resid \/ Stale \/ CollapseOp \/ Collapsed \/ TEnd
        \/ SpansOp \/ ListOp \/ Look
TSpec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
==============================================================================
