---------------------------- MODULE ThreadCachesMC ----------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Totals, Objs, Depth
MSize(c) == c + 1
MBatch(c) == 3 - c
Classes == {1, 2}
Steal == 2
MinC == 4
MaxC == 12
T == INSTANCE ThreadCaches WITH Size <- MSize, Batch <- MBatch, Classes <- Classes, Steal <- Steal, MinC <- MinC, MaxC <- MaxC, MaxOver <- 1, MaxLen <- 4
\* user: objects in use, shared: objects in the shared tiers; lowered: the total was made smaller while caches lived
VARIABLES s, user, shared, lowered
vars == <<s, user, shared, lowered>>
Init == s = T!Start(12) /\ user = [c \in Classes |-> 0] /\ shared = [c \in Classes |-> Objs] /\ lowered = FALSE
Cached(t, c) == IF t \in DOMAIN s.h THEN s.h[t].len[c] ELSE 0
RECURSIVE All(_, _, _)
All(st, ts, c) == IF ts = {} THEN 0 ELSE LET x == CHOOSE y \in ts : TRUE IN (IF x \in DOMAIN st.h THEN st.h[x].len[c] ELSE 0) + All(st, ts \ {x}, c)
\* what left or entered the caches entered or left the shared tiers
Rest(n, u) == [c \in Classes |-> (Objs - u[c]) - All(n, Threads, c)]
Step(n, u) == s' = n /\ user' = u /\ shared' = Rest(n, u) /\ lowered' = (lowered \/ (n.ov < s.ov /\ s.order # <<>>))
Alloc(t, c) ==
  LET b == IF t \in T!Heaps(s) THEN s ELSE T!Born(s, t) IN
  IF b.h[t].len[c] > 0 THEN Step(T!Pop(b, t, c), [user EXCEPT ![c] = @ + 1])
  ELSE \E f \in 1..T!Want(b, t, c) : f <= shared[c] /\ Step(T!Fetch(b, t, c, f), [user EXCEPT ![c] = @ + 1])
Free(t, c) == user[c] > 0 /\ LET b == IF t \in T!Heaps(s) THEN s ELSE T!Born(s, t) IN Step(T!Push(b, t, c), [user EXCEPT ![c] = @ - 1])
End(t) == t \in T!Heaps(s) /\ Step(T!Gone(s, t), user)
Total(n) == Step(T!SetTotal(s, n), user)
Next == (\E t \in Threads, c \in Classes : Alloc(t, c) \/ Free(t, c)) \/ (\E t \in Threads : End(t)) \/ (\E n \in Totals : n # s.ov /\ Total(n))
Spec == Init /\ [][Next]_vars
Sound == T!Sound(s)
Nothing == \A c \in Classes : shared[c] >= 0 /\ user[c] + shared[c] + All(s, Threads, c) = Objs
Bound == ~lowered => T!SumMax(s, T!Heaps(s)) <= s.ov + Steal + MinC * Len(s.order)
Shallow == TLCGet("level") <= Depth
=============================================================================
