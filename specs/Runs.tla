-------------------------------- MODULE Runs --------------------------------
(* Sets of naturals viewed as runs of consecutive elements <<start, length>>. *)
EXTENDS Integers, Sequences, FiniteSets

Ival(a, n) == a .. (a + n - 1)
RECURSIVE RunEnd(_, _)
RunEnd(S, i) == IF i + 1 \in S THEN RunEnd(S, i + 1) ELSE i
RunStarts(S) == { i \in S : (i - 1) \notin S }
(* all maximal runs of S *)
Runs(S) == { <<i, RunEnd(S, i) - i + 1>> : i \in RunStarts(S) }
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
Longest(S) == MaxOf({ r[2] : r \in Runs(S) })
HasRun(S, n) == \E r \in Runs(S) : r[2] >= n
(* a sequence lists exactly the runs of S in address order *)
ListsRuns(seq, S) ==
  /\ \A i \in 1 .. Len(seq) - 1 : seq[i][1] + seq[i][2] < seq[i + 1][1]
  /\ { seq[i] : i \in DOMAIN seq } = Runs(S)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
=============================================================================
