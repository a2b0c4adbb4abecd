------------------------------- MODULE PageMap ------------------------------
(* Three-level radix tree (root, nodes, leaves allocated on demand, any     *)
(* allocation may fail) refining an abstract map from pages to span and     *)
(* size class, including the search for the next mapped page.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS R, M, L, H, Spans, Classes      \* lengths of root, node, leaf; huge pages per leaf
Null == 0
Pages == 0 .. R * M * L - 1
I1(k) == k \div (M * L)
I2(k) == (k \div L) % M
I3(k) == k % L
VARIABLES root,      \* root[i1]: Null or a node; node[i2]: Null or a leaf
          span, cls, huge, ens   \* the abstract map
vars == <<root, span, cls, huge, ens>>
NoLeaf == [sp |-> <<>>]
Leaf0 == [sp |-> [i \in 0 .. L - 1 |-> Null], sc |-> [i \in 0 .. L - 1 |-> 0], pk |-> [i \in 0 .. L - 1 |-> 0], hp |-> [i \in 0 .. H - 1 |-> Null]]
Node0 == [i \in 0 .. M - 1 |-> NoLeaf]
NoNode == <<>>
Init == /\ root = [i \in 0 .. R - 1 |-> NoNode]
        /\ span = [p \in Pages |-> Null] /\ cls = [p \in Pages |-> 0] /\ huge = [h \in 0 .. R * M * H - 1 |-> Null] /\ ens = {}
HasNode(rt, k) == rt[I1(k)] # NoNode
Has(rt, k) == HasNode(rt, k) /\ rt[I1(k)][I2(k)] # NoLeaf
\* Ensure walks leaf by leaf; `fail` allocations succeed before one fails
RECURSIVE Walk(_, _, _, _)
Walk(rt, key, last, left) ==
  IF key > last THEN [ok |-> TRUE, rt |-> rt, upto |-> last]
  ELSE IF I1(key) >= R THEN [ok |-> FALSE, rt |-> rt, upto |-> key - 1]
  ELSE LET a1 == IF HasNode(rt, key) THEN 0 ELSE 1
           a2 == IF Has(rt, key) THEN 0 ELSE 1 IN
       IF a1 = 1 /\ left = 0 THEN [ok |-> FALSE, rt |-> rt, upto |-> key - 1]
       ELSE LET r1 == IF a1 = 1 THEN [rt EXCEPT ![I1(key)] = Node0] ELSE rt IN
            IF a2 = 1 /\ left - a1 = 0 THEN [ok |-> FALSE, rt |-> r1, upto |-> key - 1]
            ELSE LET r2 == IF a2 = 1 THEN [r1 EXCEPT ![I1(key)][I2(key)] = Leaf0] ELSE r1 IN
                 Walk(r2, ((key \div L) + 1) * L, last, left - a1 - a2)
Ensure == \E s \in Pages, n \in 1 .. L + 1, left \in {0, 1, 2, 9} :
  LET w == Walk(root, s, s + n - 1, left) IN
  /\ root' = w.rt
  /\ ens' = ens \cup { p \in Pages : \E q \in s .. w.upto : q \div L = p \div L }
  /\ (w.ok => s + n - 1 \in Pages)
  /\ UNCHANGED <<span, cls, huge>>
Put(k, s, c) == /\ root' = [root EXCEPT ![I1(k)][I2(k)].sp[I3(k)] = s, ![I1(k)][I2(k)].pk[I3(k)] = c, ![I1(k)][I2(k)].sc[I3(k)] = c]
                /\ span' = [span EXCEPT ![k] = s] /\ cls' = [cls EXCEPT ![k] = c]
Set == \E k \in ens, s \in Spans \cup {Null}, c \in Classes \cup {0} : Put(k, s, c) /\ UNCHANGED <<huge, ens>>
ClearClass == \E k \in ens : /\ span[k] # Null /\ root' = [root EXCEPT ![I1(k)][I2(k)].sc[I3(k)] = 0] /\ cls' = [cls EXCEPT ![k] = 0] /\ UNCHANGED <<span, huge, ens>>
SetHuge == \E k \in ens, v \in Spans : /\ root' = [root EXCEPT ![I1(k)][I2(k)].hp[I3(k) \div (L \div H)] = v]
                                       /\ huge' = [huge EXCEPT ![k \div (L \div H)] = v] /\ UNCHANGED <<span, cls, ens>>
Next == Ensure \/ Set \/ ClearClass \/ SetHuge
Spec == Init /\ [][Next]_vars
\* --- lookups of the tree agree with the map
Get(k) == IF Has(root, k) THEN root[I1(k)][I2(k)].sp[I3(k)] ELSE Null
Cls(k) == IF Has(root, k) THEN root[I1(k)][I2(k)].sc[I3(k)] ELSE 0
Agree == \A k \in Pages : /\ Get(k) = span[k] /\ Cls(k) = cls[k] /\ (Has(root, k) = (k \in ens))
                          /\ Has(root, k) => root[I1(k)][I2(k)].hp[I3(k) \div (L \div H)] = huge[k \div (L \div H)]
RECURSIVE Scan(_, _, _)
Scan(i1, i2, i3) ==
  IF i1 >= R THEN -1
  ELSE IF root[i1] = NoNode \/ i2 >= M THEN Scan(i1 + 1, 0, 0)
  ELSE IF root[i1][i2] = NoLeaf \/ i3 >= L THEN Scan(i1, i2 + 1, 0)
  ELSE IF root[i1][i2].sp[i3] # Null THEN (i1 * M + i2) * L + i3
  ELSE Scan(i1, i2, i3 + 1)
NextSet(k) == Scan(I1(k + 1), I2(k + 1), I3(k + 1))
Search == \A k \in Pages : LET S == { p \in Pages : p > k /\ span[p] # Null } IN
            NextSet(k) = IF S = {} THEN -1 ELSE CHOOSE p \in S : \A q \in S : p <= q
=============================================================================
