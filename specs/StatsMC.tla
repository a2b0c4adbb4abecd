-------------------------------- MODULE StatsMC --------------------------------
(* The account moving: bytes go from the system through the page heap, the central lists and the caches to the program    *)
(* and back.  Figures are made to cross the base of the pairs.                                                            *)
EXTENDS Stats
CONSTANTS Unit, Most
VARIABLES a, used
vars == <<a, used>>
Z == <<0, 0>>
U == Fig(Unit)
Init == used = Z /\ a = [system |-> Z, free |-> Z, unm |-> Z, central |-> Z, percpu |-> Z, sharded |-> Z, transfer |-> Z, thread |-> Z, meta |-> U, arenaun |-> Z, arenagone |-> Z, arenanonres |-> Z]
Move(x, y) == Leq(U, a[x]) /\ a' = [a EXCEPT ![x] = Sub2(@, U), ![y] = Add2(@, U)] /\ UNCHANGED used
Grow == Leq(a.system, Fig(Unit * Most)) /\ a' = [a EXCEPT !.system = Total(<<@, U, U>>), !.free = Total(<<@, U, U>>)] /\ UNCHANGED used
Get(x) == Leq(U, a[x]) /\ a' = [a EXCEPT ![x] = Sub2(@, U)] /\ used' = Add2(used, U)
Put(x) == Leq(U, used) /\ a' = [a EXCEPT ![x] = Add2(@, U)] /\ used' = Sub2(used, U)
Tiers == {<<"free", "unm">>, <<"unm", "free">>, <<"free", "central">>, <<"central", "free">>, <<"central", "transfer">>, <<"transfer", "central">>,
          <<"transfer", "percpu">>, <<"percpu", "transfer">>, <<"percpu", "sharded">>, <<"sharded", "percpu">>, <<"transfer", "thread">>, <<"thread", "transfer">>,
          <<"arenaun", "meta">>, <<"meta", "arenanonres">>, <<"arenaun", "arenagone">>}
Arena == Leq(Total(<<a.meta, a.arenaun, a.arenagone, a.arenanonres>>), Fig(Unit)) /\ a' = [a EXCEPT !.arenaun = Add2(@, U)] /\ UNCHANGED used
Next == (\E t \in Tiers : Move(t[1], t[2])) \/ Grow \/ Arena \/ \E x \in {"free", "percpu", "thread"} : Get(x) \/ Put(x)
Spec == Init /\ [][Next]_vars
\* what the program has is what is nowhere else
Adds == App(a) = used /\ Fits(a)
=============================================================================
