------------------------------- MODULE Limits -------------------------------
(* Memory limits and releases of the page heap, in pages.                    *)
(* used   pages in live blocks                                               *)
(* free   pages backed by memory and not in use                              *)
(* stuck  the part of free that no release can reach (slack of large blocks)  *)
(* gone   pages given back to the system                                     *)
(* cred   pages that were given back as a side effect of a free and that the  *)
(*        next release claims as its own                                      *)
(* Crossing the soft limit makes an allocation release; the hard limit stops  *)
(* the program rather than being exceeded.                                    *)
EXTENDS Naturals, FiniteSets
CONSTANTS Max,      \* pages the system can give
          None,     \* "no limit"
          Unit,     \* pages backed at a time (a huge page)
          Claims    \* how a shrink judges itself: TRUE trusts the claimed amount, FALSE measures
VARIABLES used, free, gone, cred, soft, hard, alive, checked, hits, hhits, succ, hsucc, asked, given, extra
vars == <<used, free, gone, cred, soft, hard, alive, checked, hits, hhits, succ, hsucc, asked, given, extra>>
Least(a, b) == IF a < b THEN a ELSE b
Minus(a, b) == IF a > b THEN a - b ELSE 0
Backed == used + free
Cap == 2   \* counters are kept small: only differences matter

Init == /\ used = 0 /\ free = 0 /\ gone = 0 /\ cred = 0 /\ soft = None /\ hard = None /\ alive = TRUE /\ checked = FALSE
        /\ hits = 0 /\ hhits = 0 /\ succ = 0 /\ hsucc = 0 /\ asked = 0 /\ given = 0 /\ extra = 0

(* One release of at least n pages from f free pages with credit c: what is dropped and what is claimed.  A claim *)
(* that suffices drops nothing.                                                                                *)
Dropped(n, f, c) == IF c >= n THEN 0 ELSE Least(f, n - c)
Claimed(n, f, c) == IF n = 0 THEN 0 ELSE c + Dropped(n, f, c)
(* Shrinking to below a limit: the pages that are dropped. Measuring repeats until the limit holds or all is gone. *)
Shrink(u, f, c, lim) ==
  LET over == Minus(u + f, lim)
      d == Dropped(over, f, c)
  IN IF Claims THEN [drop |-> d, ok |-> Claimed(over, f, c) >= over, c |-> 0]
     ELSE LET d2 == Dropped(Minus(over, d), f - d, 0) IN [drop |-> d + d2, ok |-> d + d2 >= over, c |-> 0]
(* The check that follows every page allocation and every change of a limit. *)
Check(u, f, g, c, so, ha) ==
  IF so = None \/ u + f <= so
  THEN /\ used' = u /\ free' = f /\ gone' = g /\ cred' = c /\ UNCHANGED <<hits, hhits, succ, hsucc, alive>>
  ELSE LET over == u + f > ha
           s == Shrink(u, f, c, so)
           f2 == f - s.drop
           h == IF u + f2 <= ha THEN [drop |-> 0, ok |-> TRUE, c |-> s.c] ELSE Shrink(u, f2, s.c, ha)
       IN /\ hits' = 1 /\ succ' = (IF s.ok THEN 1 ELSE 0) /\ hhits' = (IF over THEN 1 ELSE 0)
          /\ used' = u /\ cred' = 0
          /\ IF s.ok THEN /\ free' = f2 /\ gone' = g + s.drop /\ alive' = TRUE
                     ELSE /\ free' = f2 - h.drop /\ gone' = g + s.drop + h.drop /\ alive' = h.ok
          /\ hsucc' = (IF over /\ alive' THEN 1 ELSE 0)
Alloc(n) ==
  /\ alive /\ checked' = TRUE
  /\ IF free >= n
     THEN Check(used + n, free - n, gone, cred, soft, hard)
     ELSE LET need == ((n - free + Unit - 1) \div Unit) * Unit IN      \* whole units come from the system or from what is gone
          /\ used + free + need <= Max
          /\ Check(used + n, free + need - n, Minus(gone, need), cred, soft, hard)
  /\ UNCHANGED <<soft, hard, asked, given, extra>>
\* some of the freed pages may be dropped at once (the rest of a huge page part of which is gone already)
Free(n, k) ==
  /\ alive /\ n <= used /\ k <= n + free /\ checked' = FALSE
  /\ used' = used - n /\ free' = free + n - k /\ gone' = gone + k /\ cred' = cred + k
  /\ hits' = 0 /\ hhits' = 0 /\ succ' = 0 /\ hsucc' = 0
  /\ UNCHANGED <<soft, hard, alive, asked, given, extra>>
SetLimit(k, v) ==
  /\ alive /\ checked' = TRUE
  /\ LET ha == IF k = "hard" THEN v ELSE hard
         so0 == IF k = "soft" THEN v ELSE soft
         so == IF ha < so0 THEN ha ELSE so0
     IN soft' = so /\ hard' = ha /\ Check(used, free, gone, cred, so, ha)
  /\ UNCHANGED <<asked, given, extra>>
(* A request for n pages: what earlier requests released too much is taken off first. *)
Release(n, over) ==
  /\ alive /\ checked' = FALSE
  /\ LET ask == Minus(n, extra)
         d0 == Dropped(ask, free, cred)
         d == IF d0 = 0 THEN 0 ELSE Least(free, d0 + over)       \* whole units: somewhat more than asked
         got == IF ask = 0 THEN 0 ELSE cred + d
     IN /\ free' = free - d /\ gone' = gone + d /\ cred' = (IF ask = 0 THEN cred ELSE 0)
        /\ IF got >= ask THEN /\ extra' = Minus(extra, n) + got - ask
                              /\ LET a == asked + n  g == given + got  m == Least(a, g) IN asked' = a - m /\ given' = g - m
           ELSE extra' = 0 /\ asked' = 0 /\ given' = 0            \* everything is gone: nothing is owed
  /\ hits' = 0 /\ hhits' = 0 /\ succ' = 0 /\ hsucc' = 0
  /\ UNCHANGED <<used, soft, hard, alive>>
Limitsv == 1 .. Max
Next == \/ \E n \in 1 .. 3 : Alloc(n)
        \/ \E n \in 1 .. 3, k \in 0 .. 2 : Free(n, k)
        \/ \E k \in {"soft", "hard"}, v \in Limitsv \cup {None} : SetLimit(k, v)
        \/ \E n \in 0 .. 3, o \in 0 .. 2 : Release(n, o)
Spec == Init /\ [][Next]_vars
Bound == extra <= 4 /\ cred <= 3

Type == used + free + gone <= Max + Unit /\ soft <= hard
HardHeld == (alive /\ checked) => Backed <= hard
SoftHeld == (alive /\ checked /\ Backed > soft) => free = 0
StopJustified == ~alive => used > hard \/ free = 0
Honest == hhits <= hits /\ succ <= hits /\ (alive => hsucc = hhits) /\ (alive /\ succ = 1 => Backed <= soft)
Carry == given = asked + extra
=============================================================================
