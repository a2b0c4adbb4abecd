------------------------------- MODULE StatsTrace -------------------------------
(* Readings of the real allocator, through every interface, against one account of all blocks the program has.          *)
EXTENDS Json, IOUtils, TLC, Stats
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, live, used, base, last, samp, samp0, most     \* most: the largest sampled heap so far
vars == <<l, live, used, base, last, samp, samp0, most>>
Largest(x, y) == IF Leq(x, y) THEN y ELSE x
e == Trace[l]
Page == 8192
\* a block on its own pages takes whole pages
Takes(kind, cap) == IF kind = "small" THEN Fig(cap) ELSE Fig(((cap + Page - 1) \div Page) * Page)
Init == l = 2 /\ live = <<>> /\ used = <<0, 0>> /\ base = <<0, 0>> /\ last = <<>> /\ samp = 0 /\ samp0 = <<>> /\ most = <<0, 0>>
Alloc == e.op = "alloc" /\ LET t == Takes(e.kind, e.cap) IN live' = (e.id :> <<t, e.kind>>) @@ live /\ used' = Add2(used, t)
         /\ samp' = (IF e.kind = "sampled" THEN samp + 1 ELSE samp) /\ most' = Largest(most, e.sampled) /\ UNCHANGED <<base, last, samp0>>
Free == e.op = "free" /\ e.id \in DOMAIN live /\ live' = [x \in DOMAIN live \ {e.id} |-> live[x]] /\ used' = Sub2(used, live[e.id][1])
        /\ samp' = (IF live[e.id][2] = "sampled" THEN samp - 1 ELSE samp) /\ UNCHANGED <<base, last, samp0, most>>
Idle == e.op = "idle" /\ UNCHANGED <<live, used, base, last, samp, samp0, most>>
\* what is released leaves the free pages for the unmapped ones, and is counted
Release == /\ e.op = "release" /\ e.sys0 = e.sys1
           /\ Add2(e.free0, e.unm0) = Add2(e.free1, e.unm1)
           /\ Leq(e.unm0, e.unm1) /\ Leq(Add2(e.rel0, e.unm1), Add2(e.rel1, e.unm0))   \* (with what became unmapped since the last release)
           /\ UNCHANGED <<live, used, base, last, samp, samp0, most>>
\* the account as the text shows it
Acct == LET t == e.text IN [system |-> e.system, free |-> t.free, unm |-> e.unm, central |-> t.central, percpu |-> t.percpu, sharded |-> t.sharded, transfer |-> t.transfer,
                            thread |-> t.thread, meta |-> t.meta, arenaun |-> t.arenaun, arenagone |-> t.arenagone, arenanonres |-> t.arenanonres]
G(n) == e.num[n]
Same(x, y) == \A k \in DOMAIN y : x[k] = y[k]
\* figures that count metadata whether resident or not when asked for one by one
Lump == {"generic.virtual_memory_used", "generic.physical_memory_used", "tcmalloc.external_fragmentation_bytes", "tcmalloc.required_bytes"}
Agree == \A n \in DOMAIN e.num :
           IF n \in Lump THEN Add2(e.num[n], G("tcmalloc.metadata_bytes")) = Add2(e.props[n], e.fullmeta) ELSE e.num[n] = e.props[n]
Told == LET t == e.text p == e.props IN
        [system |-> e.system, free |-> p["tcmalloc.page_heap_free"], unm |-> p["tcmalloc.pageheap_unmapped_bytes"], central |-> p["tcmalloc.central_cache_free"], percpu |-> p["tcmalloc.cpu_free"],
         sharded |-> p["tcmalloc.sharded_transfer_cache_free"], transfer |-> p["tcmalloc.transfer_cache_free"], thread |-> p["tcmalloc.thread_cache_free"], meta |-> p["tcmalloc.metadata_bytes"],
         arenaun |-> t.arenaun, arenagone |-> t.arenagone, arenanonres |-> t.arenanonres]
Derived ==
  LET acct == Acct IN
  /\ Fits(acct)
  /\ e.free = acct.free /\ e.text.app = App(acct) /\ e.text.physical = Physical(acct) /\ e.text.virtual = Virtual(acct) /\ e.text.unmapped = Unmapped(acct)
  /\ e.nonres = acct.arenanonres
  /\ LET p == e.props
         a == Told IN                                                   \* (collecting them may move blocks between the caches)
     /\ p["generic.virtual_memory_used"] = Virtual(a) /\ p["generic.physical_memory_used"] = Physical(a)
     /\ p["generic.peak_memory_usage"] = e.text.peakbacked
     /\ p["generic.current_allocated_bytes"] = App(a) /\ p["generic.bytes_in_use_by_app"] = App(a) /\ p["generic.heap_size"] = HeapSize(a)
     /\ p["tcmalloc.page_heap_free"] = a.free /\ p["tcmalloc.pageheap_free_bytes"] = a.free
     /\ p["tcmalloc.metadata_bytes"] = a.meta
     /\ p["tcmalloc.central_cache_free"] = a.central /\ p["tcmalloc.transfer_cache_free"] = a.transfer /\ p["tcmalloc.cpu_free"] = a.percpu
     /\ p["tcmalloc.sharded_transfer_cache_free"] = a.sharded
     /\ p["tcmalloc.current_total_thread_cache_bytes"] = a.thread /\ p["tcmalloc.thread_cache_free"] = a.thread
     /\ p["tcmalloc.thread_cache_count"] = e.text.heaps
     /\ p["tcmalloc.local_bytes"] = Local(a) /\ p["tcmalloc.required_bytes"] = Required(a) /\ p["tcmalloc.external_fragmentation_bytes"] = External(a)
     /\ p["tcmalloc.pageheap_unmapped_bytes"] = a.unm /\ p["tcmalloc.page_heap_unmapped"] = Unmapped(a)
     /\ p["tcmalloc.slack_bytes"] = Slack(a)
     /\ p["tcmalloc.sampled_internal_fragmentation"] = e.fragmented
     /\ p["tcmalloc.num_released_total_bytes"] = e.rel
     /\ e.rel = Total(<<p["tcmalloc.num_released_release_memory_to_system_bytes"], p["tcmalloc.num_released_process_background_actions_bytes"],
                        p["tcmalloc.num_released_soft_limit_exceeded_bytes"], p["tcmalloc.num_released_hard_limit_exceeded_bytes"]>>)
     /\ Leq(e.text.peakapp, Add2(most, <<32, 0>>))        \* the estimate at the peak: what was sampled then, and one request
\* and against what is really there
Real ==
  LET a == Acct IN
  /\ e.spanbytes = Sub2(HeapSize(a), a.free)                              \* the pages in use
  /\ <<0, e.text.spans[2]>> = e.text.spans                                \* (a small number)
  /\ e.classtext = e.classpb /\ e.off = 0 /\ e.livepages = e.mappages     \* the classes
  /\ Add2(e.classtext, e.overhead) = Cached(a)                            \* what the caches hold
  /\ e.sampled = e.pbsampled /\ e.fragmented = e.pbfragmented
  /\ (IF samp = 0 /\ samp0 # <<>> THEN <<e.sampled, e.fragmented>> = samp0 ELSE TRUE) = TRUE
Reading ==
  /\ e.op = "reading" /\ Same(e.text, e.pb) /\ Derived /\ Real /\ (e.same => Agree /\ Told = Acct)
  /\ base' = (IF e.mark THEN e.text.app ELSE base)
  /\ (IF e.mark THEN TRUE ELSE e.text.app = Add2(base, used)) = TRUE      \* what the program has
  /\ samp0' = (IF e.mark THEN <<e.sampled, e.fragmented>> ELSE samp0)
  /\ (IF last = <<>> THEN TRUE ELSE Leq(last[1], e.system) /\ Leq(last[2], e.rel) /\ Leq(last[3], e.text.peakbacked)) = TRUE     \* these only grow
  /\ last' = <<e.system, e.rel, e.text.peakbacked>>
  /\ most' = Largest(most, e.sampled)
  /\ UNCHANGED <<live, used, samp>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Alloc \/ Free \/ Idle \/ Release \/ Reading)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
