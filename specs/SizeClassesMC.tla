---------------------------- MODULE SizeClassesMC ---------------------------
(* The lookup structure built from a description - one array slot per fine or coarse step, filled class   *)
(* by class, alignment found by walking up the classes - gives every request exactly Fit, for every valid  *)
(* table of sizes within the bounds; a block may therefore be freed with any size of its class.           *)
EXTENDS SizeClasses, FiniteSets
VARIABLES sizes, phase, slot, c, next_s
vars == <<sizes, phase, slot, c, next_s>>
Ceil(a, b) == (a + b - 1) \div b
Index(s) == IF s <= large THEN Ceil(s, fine) ELSE Ceil(s, coarse) + large \div fine - large \div coarse
Slots == 0 .. Index(maxsize)
Init == sizes = <<>> /\ phase = "build" /\ slot = [i \in Slots |-> 0] /\ c = 1 /\ next_s = 0
Last == IF sizes = <<>> THEN 0 ELSE sizes[Len(sizes)]
AddClass == /\ phase = "build"
            /\ \E s \in (Last + 1) .. maxsize : s % SizeAlign(s) = 0 /\ sizes' = Append(sizes, s)
            /\ UNCHANGED <<phase, slot, c, next_s>>
Install == phase = "build" /\ Last = maxsize /\ phase' = "fill" /\ UNCHANGED <<sizes, slot, c, next_s>>
FillClass == /\ phase = "fill" /\ c <= Len(sizes)
             /\ slot' = [i \in Slots |-> IF \E s \in next_s .. sizes[c] : (s - next_s) % fine = 0 /\ Index(s) = i THEN c ELSE slot[i]]
             /\ c' = c + 1 /\ next_s' = sizes[c] + fine /\ UNCHANGED <<sizes, phase>>
Ready == phase = "fill" /\ c > Len(sizes) /\ phase' = "ready" /\ UNCHANGED <<sizes, slot, c, next_s>>
Next == AddClass \/ Install \/ FillClass \/ Ready
Spec == Init /\ [][Next]_vars
RECURSIVE Up(_, _)
Up(k, a) == IF sizes[k] % a = 0 THEN k ELSE Up(k + 1, a)
Pow2 == {a \in 1 .. 2 * page : a \in {1, 2, 4, 8, 16}}
LookupSize(n, a) == IF a > page \/ n > maxsize THEN 0 ELSE sizes[Up(slot[Index(n)], a)]
Exact == phase = "ready" => \A n \in 0 .. maxsize + 1, a \in Pow2 : LookupSize(n, a) = Fit(sizes, n, a)
Monotone == phase = "ready" => \A n \in 0 .. maxsize - 1, a \in Pow2 : a <= page => LookupSize(n, a) <= LookupSize(n + 1, a)
Sufficient == phase = "ready" => \A n \in 0 .. maxsize, a \in Pow2 : a <= page => LookupSize(n, a) >= n /\ LookupSize(n, a) % a = 0
=============================================================================
