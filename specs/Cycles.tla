-------------------------------- MODULE Cycles ------------------------------
(* A coarse timestamp: W bits of (cycle counter >> S), zero meaning unset.  *)
(* Small W makes every distance and every wrap-around reachable.            *)
EXTENDS Integers, TLC
CONSTANTS W, S, Epochs
P == 2 ^ W
U == 2 ^ S
\* raw value of a real time; zero is reserved, so tick 0 of an epoch reads as 1
Raw(t) == LET q == (t \div U) % P IN IF q = 0 THEN 1 ELSE q
Tick(t) == t \div U
Age(now, raw) == (Raw(now) - raw) % P
After(a, b) == (a - b) % P < P \div 2
VARIABLES now, raw, at        \* clock; two stamps: raw value, real time (-1: unset)
vars == <<now, raw, at>>
Init == now = 0 /\ raw = [i \in 1..2 |-> 0] /\ at = [i \in 1..2 |-> -1]
Advance == \E d \in 1 .. U * (P + 1) : now + d < Epochs * P * U /\ now' = now + d /\ UNCHANGED <<raw, at>>
Update(i) == raw' = [raw EXCEPT ![i] = Raw(now)] /\ at' = [at EXCEPT ![i] = now] /\ UNCHANGED now
Reset(i) == raw' = [raw EXCEPT ![i] = 0] /\ at' = [at EXCEPT ![i] = -1] /\ UNCHANGED now
Next == Advance \/ \E i \in 1..2 : Update(i) \/ Reset(i)
Spec == Init /\ [][Next]_vars
Abs(x) == IF x < 0 THEN -x ELSE x
Sentinel == \A i \in 1..2 : (raw[i] # 0) <=> (at[i] >= 0)
AgeRight == \A i \in 1..2 : at[i] >= 0 =>
  LET d == Tick(now) - Tick(at[i]) IN d <= P - 2 => Abs(Age(now, raw[i]) - d) <= 1
OrderRight == (at[1] >= 0 /\ at[2] >= 0) =>
  LET d == Tick(at[1]) - Tick(at[2]) IN
    Abs(d) < P \div 2 - 1 =>
      /\ d >= 0 => After(raw[1], raw[2])
      /\ d <= -2 => ~After(raw[1], raw[2])
      /\ (d = -1 /\ Tick(at[1]) % P # 0) => ~After(raw[1], raw[2])
      /\ (After(raw[1], raw[2]) /\ After(raw[2], raw[1])) => raw[1] = raw[2]
=============================================================================
