----------------------------- MODULE TimeSeries -----------------------------
(* A sliding time series: the reports of the last K epochs in which anything was reported, newest first.  *)
(* A slot is [ep |-> epoch, delta |-> epochs since the previous slot, data |-> sequence of reports].      *)
EXTENDS Integers, Sequences
Prefix(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
NewSlot(ep, delta) == [ep |-> ep, delta |-> delta, data |-> <<>>]
Fresh(ep) == <<NewSlot(ep, 1)>>
\* the clock is read and shows epoch ep: a later epoch opens a slot, an earlier one discards the history
Tick(slots, ep, K) ==
  IF ep < slots[1].ep THEN Fresh(ep)
  ELSE IF ep = slots[1].ep THEN slots
  ELSE Prefix(<<NewSlot(ep, ep - slots[1].ep)>> \o slots, K)
Moved(slots, ep) == ep > slots[1].ep
Put(slots, x) == [slots EXCEPT ![1].data = Append(@, x)]
\* slots of the last `need' epochs, counted back from the newest slot (-1: all of them)
InWindow(slots, need) == IF need = -1 THEN slots ELSE SelectSeq(slots, LAMBDA s : slots[1].ep - s.ep < need)
=============================================================================
