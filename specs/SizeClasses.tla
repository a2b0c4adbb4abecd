----------------------------- MODULE SizeClasses ----------------------------
(* Size classes.  A description is a sequence of rows <<size, span bytes, batch>>, the first being the    *)
(* reserved class 0; Valid says which descriptions may be installed, Fit which block a request gets.      *)
EXTENDS Integers, Sequences
CONSTANTS page, maxsize, hugepages, nb,      \* page size, largest class, pages per huge page, classes per partition
          large, fine, coarse, bits          \* sizes up to large are multiples of fine, others of coarse; span bitmap width
SizeAlign(s) == IF s > large THEN coarse ELSE fine
\* one class
ValidRow(r) ==
  LET s == r[1]  b == r[2]  n == r[3]  pages == b \div page IN
  /\ s > 0 /\ s <= maxsize /\ s % SizeAlign(s) = 0
  /\ b % page = 0 /\ pages >= 1 /\ pages <= 32
  /\ b >= s                                                              \* at least one object
  /\ IF s >= page \div bits THEN b \div s <= bits ELSE pages = 1         \* a span can track its objects
  /\ (b \div s > 16 => pages <= hugepages \div 2)                        \* dense spans are small
  /\ n >= 2 /\ n <= 128
Valid(rows) ==
  LET k == IF Len(rows) > nb THEN nb ELSE Len(rows) IN
  /\ k >= 1 /\ rows[1] = <<0, 0, 0>>
  /\ \A i \in 2 .. k : rows[i][1] > rows[i - 1][1] /\ ValidRow(rows[i])
  /\ rows[k][1] = maxsize
\* the block size a request of n bytes aligned to a gets from the ascending sizes S: 0 = not from a size class
Fit(S, n, a) ==
  IF n > maxsize \/ a > page THEN 0
  ELSE LET ok == {i \in 1 .. Len(S) : S[i] >= n /\ S[i] % a = 0} IN
       IF ok = {} THEN 0 ELSE S[CHOOSE i \in ok : \A j \in ok : i <= j]
PageUp(n) == ((n + page - 1) \div page) * page
\* a request served by whole pages
Pages(n) == IF n = 0 THEN page ELSE PageUp(n)
Block(S, n, a) == IF Fit(S, n, a) > 0 THEN Fit(S, n, a) ELSE Pages(n)
=============================================================================
