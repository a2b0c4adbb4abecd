-------------------------------- MODULE Lists -------------------------------
(* Bucketed intrusive doubly linked lists, at pointer level (next, prev) and *)
(* with the bitmap of nonempty buckets, against the sequences they stand for.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Elems, N
Hd(i) == 100 + i            \* the sentinel of bucket i
B == 0 .. N - 1
Nodes == Elems \cup { Hd(i) : i \in B }
VARIABLES nxt, prv, bits, size, seqs
vars == <<nxt, prv, bits, size, seqs>>
Init == /\ nxt = [x \in Nodes |-> x] /\ prv = [x \in Nodes |-> x]
        /\ bits = {} /\ size = 0 /\ seqs = [i \in B |-> <<>>]
OnList(x) == \E i \in B : \E k \in DOMAIN seqs[i] : seqs[i][k] = x
Where(x) == CHOOSE i \in B : \E k \in DOMAIN seqs[i] : seqs[i][k] = x
Idx(i, x) == CHOOSE k \in DOMAIN seqs[i] : seqs[i][k] = x
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
InsertAt(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
\* pointer operations, as functions from a pair of maps to a pair of maps
Unlink(m, x) == LET n == m[1][x]  p == m[2][x] IN <<[m[1] EXCEPT ![p] = n], [m[2] EXCEPT ![n] = p]>>
LinkAfter(m, a, x) == LET n == m[1][a] IN
  <<[m[1] EXCEPT ![x] = n, ![a] = x], [m[2] EXCEPT ![x] = a, ![n] = x]>>
LinkBefore(m, a, x) == LinkAfter(m, m[2][a], x)
Ptr == <<nxt, prv>>
Set(m) == nxt' = m[1] /\ prv' = m[2]
EmptyAfter(x) == nxt[x] = prv[x]    \* "returns true iff the list is empty after removing this"
Add(x, i) == /\ ~OnList(x) /\ Set(LinkAfter(Ptr, Hd(i), x)) /\ bits' = bits \cup {i} /\ size' = size + 1
             /\ seqs' = [seqs EXCEPT ![i] = <<x>> \o @]
PutLast(x, i) == /\ ~OnList(x) /\ Set(LinkBefore(Ptr, Hd(i), x)) /\ bits' = bits \cup {i} /\ size' = size + 1
                /\ seqs' = [seqs EXCEPT ![i] = @ \o <<x>>]
AddBefore(x, y) == /\ ~OnList(x) /\ OnList(y) /\ Set(LinkBefore(Ptr, y, x)) /\ size' = size + 1
                   /\ LET i == Where(y) IN seqs' = [seqs EXCEPT ![i] = InsertAt(@, Idx(i, y), x)]
                   /\ UNCHANGED bits
AddAfter(x, y) == /\ ~OnList(x) /\ OnList(y) /\ Set(LinkAfter(Ptr, y, x)) /\ size' = size + 1
                  /\ LET i == Where(y) IN seqs' = [seqs EXCEPT ![i] = InsertAt(@, Idx(i, y) + 1, x)]
                  /\ UNCHANGED bits
Remove(x) == /\ OnList(x)
             /\ LET i == Where(x) IN
                /\ Set(Unlink(Ptr, x)) /\ size' = size - 1
                /\ bits' = IF EmptyAfter(x) THEN bits \ {i} ELSE bits
                /\ seqs' = [seqs EXCEPT ![i] = Without(@, Idx(i, x))]
Move(x, j) == /\ OnList(x) /\ Where(x) # j
              /\ LET i == Where(x) IN
                 /\ Set(LinkAfter(Unlink(Ptr, x), Hd(j), x))
                 /\ bits' = (IF EmptyAfter(x) THEN bits \ {i} ELSE bits) \cup {j}
                 /\ seqs' = [seqs EXCEPT ![i] = Without(@, Idx(i, x)), ![j] = <<x>> \o @]
                 /\ UNCHANGED size
FindSet(n) == LET S == { i \in bits : i >= n } IN IF S = {} THEN N ELSE CHOOSE i \in S : \A k \in S : i <= k
GetLeast(n) == /\ FindSet(n) # N
               /\ LET i == FindSet(n)  x == nxt[Hd(i)] IN
                  /\ Set(Unlink(Ptr, x)) /\ size' = size - 1
                  /\ bits' = IF EmptyAfter(x) THEN bits \ {i} ELSE bits
                  /\ seqs' = [seqs EXCEPT ![i] = Tail(@)]
Next == \/ \E x \in Elems, i \in B : Add(x, i) \/ PutLast(x, i) \/ Move(x, i)
        \/ \E x, y \in Elems : AddBefore(x, y) \/ AddAfter(x, y)
        \/ \E x \in Elems : Remove(x)
        \/ \E n \in B : GetLeast(n)
Spec == Init /\ [][Next]_vars
RECURSIVE Walk(_, _, _)
Walk(f, x, h) == IF x = h THEN <<>> ELSE <<x>> \o Walk(f, f[x], h)
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Forward == \A i \in B : Walk(nxt, nxt[Hd(i)], Hd(i)) = seqs[i]
Backward == \A i \in B : Walk(prv, prv[Hd(i)], Hd(i)) = Rev(seqs[i])
Bits == \A i \in B : (i \in bits) <=> seqs[i] # <<>>
RECURSIVE Total(_)
Total(i) == IF i < 0 THEN 0 ELSE Len(seqs[i]) + Total(i - 1)
Size == size = Total(N - 1)
Found == \A n \in B : (\E i \in n .. N - 1 : seqs[i] # <<>>) =>
            /\ FindSet(n) # N /\ seqs[FindSet(n)] # <<>>
            /\ \A i \in n .. FindSet(n) - 1 : seqs[i] = <<>>
=============================================================================
