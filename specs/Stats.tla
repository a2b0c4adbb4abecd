--------------------------------- MODULE Stats ---------------------------------
(* What the allocator reports about itself: where every byte obtained from the system is, and how the reported figures   *)
(* follow from that.  A figure is a pair <<millions, rest>> (base 2^20), for figures exceed 32 bits.                     *)
EXTENDS Integers, Sequences, FiniteSets
M == 1048576
Fig(n) == <<n \div M, n % M>>
Add2(a, b) == <<a[1] + b[1] + (a[2] + b[2]) \div M, (a[2] + b[2]) % M>>
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN <<0, 0>> ELSE Add2(Head(q), Total(Tail(q)))
\* a - b where a >= b
Sub2(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + M - b[2]>>
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* The account.  a: system, free, unmapped (page heap), central, percpu, sharded, transfer, thread (caches), meta (metadata),
\* arenaun, arenagone, arenanonres (metadata arena: not handed out, lost, given back)
App(a) == Sub2(a.system, Total(<<a.thread, a.central, a.transfer, a.percpu, a.sharded, a.free, a.unm>>))
Virtual(a) == Total(<<a.system, a.meta, a.arenaun, a.arenagone, a.arenanonres>>)
Unmapped(a) == Add2(a.unm, a.arenanonres)
Physical(a) == Sub2(Virtual(a), Unmapped(a))
Required(a) == Sub2(Physical(a), a.free)
External(a) == Total(<<a.free, a.central, a.percpu, a.sharded, a.transfer, a.thread, a.meta, a.arenagone, a.arenaun>>)
HeapSize(a) == Sub2(a.system, a.unm)
Local(a) == Total(<<a.thread, a.percpu, a.sharded>>)
Slack(a) == Add2(a.free, a.unm)
Cached(a) == Total(<<a.thread, a.central, a.transfer, a.percpu, a.sharded>>)
\* whatever the account, the figures derived from it fit together
Fits(a) ==
  /\ Physical(a) = Total(<<App(a), Cached(a), a.free, a.meta, a.arenaun, a.arenagone>>)
  /\ Virtual(a) = Add2(Physical(a), Unmapped(a))
  /\ HeapSize(a) = Total(<<App(a), Cached(a), a.free>>)
  /\ External(a) = Sub2(Physical(a), App(a))
  /\ Add2(HeapSize(a), Slack(a)) = Add2(a.system, a.free)
  /\ Leq(Local(a), Cached(a)) /\ Required(a) = Sub2(Physical(a), a.free)
=============================================================================
