---------------------------- MODULE LimitsTrace ----------------------------
(* Histories of the running allocator: allocations, frees, limit changes and release requests, with the backed,   *)
(* free and unmapped amounts before and after, what the system was asked to drop, and all counters, in bytes.      *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS Rules      \* which rules are judged: "limit", "release"
Trace == ndJsonDeserialize(IOEnv.TRACE)
Inf == 2147483647
HP == 2097152
Page == 8192
VARIABLES l, soft, hard, extra, cred, hits, succ, rel, slack
vars == <<l, soft, hard, extra, cred, hits, succ, rel, slack>>
e == Trace[l]
Least(a, b) == IF a < b THEN a ELSE b
Minus(a, b) == IF a > b THEN a - b ELSE 0
PageUp(n) == ((n + Page - 1) \div Page) * Page
Init == l = 1 /\ soft = Inf /\ hard = Inf /\ extra = 0 /\ cred = 0 /\ hits = <<0, 0>> /\ succ = <<0, 0>> /\ rel = <<0, 0, 0>> /\ slack = 0
bH == e.b[1]
bM == e.b[2]
bF == e.b[3]
bU == e.b[4]
\* the event certainly ended with a check against the limits
Checked == e.op = "limit" \/ (e.op = "new" /\ e.ok /\ e.a > 262144) \/ (e.op = "new" /\ e.heap > bH)
\* free memory no release reaches
Stuck == e.regions \/ e.dropf > 0
\* the most that can have been backed at any moment of the event
Most == bH + (IF e.op = "new" THEN e.a + 3 * HP ELSE 0) + e.meta
dh == e.hits[1] - hits[1]
dhh == e.hits[2] - hits[2]
ds == e.succ[1] - succ[1]
dsh == e.succ[2] - succ[2]
LimitRules(so, ha) ==
  /\ e.soft = so /\ e.hard = ha
  /\ (Checked => e.heap + bM <= ha)                                        \* the hard limit holds
  /\ ((Checked /\ e.heap + bM > so /\ ~Stuck) => e.free <= e.slack)          \* over the soft limit everything was released
  /\ dh >= 0 /\ dhh >= 0 /\ ds >= 0 /\ dsh >= 0 /\ dhh <= dh /\ ds <= dh
  /\ (e.op \in {"free", "rel"} => dh = 0)
  /\ (dh > 0 => Most > so) /\ (dhh > 0 => Most > ha)
  /\ ((Checked /\ e.heap + bM > so) => dh > 0 /\ ds < dh)
  /\ ((dh > 0 /\ dhh = 0 /\ e.heap + e.meta <= so) => ds > 0)            \* (after a hard hit the second release may have done it)
  /\ e.succ[2] = e.hits[2]                                                 \* whoever survives a hard limit was brought under it
  /\ ((dh = 0) => e.rel[2] = rel[2] /\ e.rel[3] = rel[3])
ReleaseRules(exn) ==
  LET got == (e.rel[1] - rel[1])
      lim == (e.rel[2] - rel[2]) + (e.rel[3] - rel[3])
  IN
  /\ ~e.live /\ ~e.bad                                                     \* live memory is never dropped
  /\ e.rel[1] >= rel[1] /\ e.rel[2] >= rel[2] /\ e.rel[3] >= rel[3]
  /\ e.heap + e.unm >= bH + bU
  /\ (e.op = "rel" =>
        LET ask == Minus(e.a, extra) IN
        /\ lim = 0 /\ (e.unm = bU + e.drop) /\ e.heap + e.drop = bH
        /\ e.drop <= got /\ got <= e.drop + cred
        /\ ((got < ask /\ ~Stuck /\ ~e.nosub) => e.free <= e.slack)                      \* less than asked only if nothing is left
        \* not much more than asked, except that a huge page cache nobody needed lately shrinks (to 10 huge pages at least)
        /\ ((~e.regions /\ e.free < 10 * HP) => e.drop <= PageUp(Least(ask, 1073741824)) + 2 * HP)
        /\ e.ret = Least(ask, got))
  /\ (e.op = "free" => got = 0 /\ lim = 0 /\ e.unm >= bU /\ e.unm <= bU + e.drop + e.dropf)   \* the rest of an emptied huge page that is partly gone counts as gone even if the drop failed
  /\ (e.op \in {"new", "limit"} => got = 0 /\ e.unm <= bU + e.drop + Minus(e.heap + e.unm, bH + bU) /\ lim <= e.drop + cred)   \* new memory starts out unmapped
  /\ (e.op = "limit" => e.unm = bU + e.drop /\ e.heap + e.drop = bH /\ lim >= e.drop)
ExtraNext ==
  IF e.op # "rel" THEN extra
  ELSE LET ask == Minus(e.a, extra)
           got == (e.rel[1] - rel[1])
       IN IF got >= ask THEN Minus(extra, e.a) + got - ask ELSE 0
CredNext == IF e.op = "free" THEN cred + e.drop ELSE IF e.op = "new" THEN cred + e.drop
            ELSE Minus(cred + e.drop, (e.rel[1] - rel[1]) + (e.rel[2] - rel[2]) + (e.rel[3] - rel[3]))
Step ==
  /\ l <= Len(Trace) /\ e.op # "died" /\ l' = l + 1
  /\ LET ha == IF e.op = "limit" /\ e.k = 1 THEN e.a ELSE hard
         so0 == IF e.op = "limit" /\ e.k = 0 THEN e.a ELSE soft
         so == Least(so0, ha)
     IN /\ ("limit" \in Rules => LimitRules(so, ha)) = TRUE
        /\ ("release" \in Rules => ReleaseRules(extra)) = TRUE
        /\ soft' = so /\ hard' = ha
  /\ extra' = ExtraNext /\ cred' = CredNext
  /\ hits' = e.hits /\ succ' = e.succ /\ rel' = e.rel /\ slack' = e.slack
\* the program was stopped: at once, loudly, and only because even with nothing free it would exceed the hard limit
Died ==
  /\ l <= Len(Trace) /\ e.op = "died" /\ l' = l + 1
  /\ ("limit" \in Rules =>
       LET ha == IF e.of = "limit" /\ e.k = 1 THEN e.a ELSE hard IN
       /\ e.loud /\ e.of \in {"new", "limit"} /\ ha # Inf
       /\ (~Stuck => Minus(bH, bF) + bM + slack + (IF e.of = "new" THEN e.a + 2 * HP ELSE 0) + 1048576 > ha)) = TRUE
  /\ UNCHANGED <<soft, hard, extra, cred, hits, succ, rel, slack>>
Next == Step \/ Died
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
