---------------------------- MODULE SamplerTrace ----------------------------
(* Histories of real samplers: the distance to the point before and after every request.  64-bit values are triples *)
(* of 24-bit digits.                                                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, iv, ready, step, left, whole
vars == <<l, iv, ready, step, left, whole>>
e == Trace[l]
Base == 16777216
Zero == <<0, 0, 0>>
One == <<0, 0, 1>>
Max == <<32767, 16777215, 16777215>>                 \* the largest signed value
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))
Leq(a, b) == a = b \/ Less(a, b)
Add(a, b) == LET x == a[3] + b[3] y == a[2] + b[2] + (x \div Base)
             IN <<a[1] + b[1] + (y \div Base), y % Base, x % Base>>
Quiet == <<0, 8, 0>>                                 \* 128 MiB
\* may q be the distance of a point picked now?
Point(q) == CASE iv = Zero -> q = Quiet [] iv = One -> q = Zero [] OTHER -> TRUE
\* the weight of a sample of k with the point b away, picked under the interval s (a value too large is cut off)
Weigh(w, s, k, b) == LET t == Add(s, k) IN IF Less(Add(Max, b), t) THEN w = Max ELSE Add(w, b) = t
Init == l = 2 /\ iv = Trace[1].iv /\ ready = {} /\ step = [i \in 1..4 |-> Zero] /\ left = [i \in 1..4 |-> Zero] /\ whole = Zero
Set == e.op = "set" /\ e.back = TRUE /\ iv' = e.iv /\ UNCHANGED <<ready, step, left, whole>>
\* the request e with its point b away, picked under s: weight 0 is no sample; what is in force afterwards
Hit(b) == Leq(b, e.k)
Judged(b, s, w) ==
  IF Hit(b) THEN Point(e.b2) /\ (IF iv = Zero THEN w = Zero ELSE Weigh(w, s, e.k, b))
  ELSE w = Zero /\ Add(e.b2, Add(e.k, One)) = b
\* the first request sets a sampler up: the point was picked just before it, so unless it is kept, the weight is that
\* of some possible point
First(w) ==
  \/ w = Zero /\ (CASE iv = Zero -> Leq(Quiet, e.k) \/ Add(e.b2, Add(e.k, One)) = Quiet
                    [] iv = One -> FALSE
                    [] OTHER -> TRUE)
  \/ iv # Zero /\ w # Zero /\ Point(e.b2) /\ Leq(iv, w) /\ Leq(w, Add(iv, e.k)) /\ (iv = One => w = Add(One, e.k))
Own ==
  LET i == e.id IN
  /\ e.op = "own" /\ e.still = TRUE
  /\ IF i \in ready
     THEN (/\ e.b = left[i] /\ (e.will <=> Hit(e.b))
           /\ Judged(e.b, step[i], e.w)) = TRUE
          /\ step' = (IF Hit(e.b) THEN [step EXCEPT ![i] = iv] ELSE step)
     ELSE First(e.w) = TRUE /\ step' = [step EXCEPT ![i] = iv]
  /\ ready' = ready \cup {i} /\ left' = [left EXCEPT ![i] = e.b2]
  /\ UNCHANGED <<iv, whole>>
Bytes == e.op = "bytes" /\ (e.got = e.m * e.a) = TRUE /\ UNCHANGED <<iv, ready, step, left, whole>>
\* points lie the interval apart on average, and like points of a stream with no memory (in 1/10000; tail in 1/100000)
Near(x, y, d) == x >= y - d /\ x <= y + d
Spread == e.op = "spread"
  /\ (Near(e.mean, 10000, 350) /\ Near(e.half, 5000, 200) /\ Near(e.tail, 1000, 350) /\ Near(e.pair, 2500, 200) /\ Near(e.first, 10000, 1000)) = TRUE
  /\ UNCHANGED <<iv, ready, step, left, whole>>
Whole == e.op = "whole" /\ whole' = <<0, 0, 1000>> /\ iv' = <<0, 0, 1000>> /\ UNCHANGED <<ready, step, left>>
Aligned == e.kind \in {4, 5, 6, 8}
Alloc ==
  /\ e.op = "alloc"
  /\ (/\ e.ok /\ e.hooks \in {0, 1} /\ e.got >= e.size
      /\ Judged(e.b, whole, e.w)
      /\ (e.hooks = 1 <=> e.w # Zero)
      \* a sample carries what was asked for and what was given
      /\ (e.hooks = 1 => e.same /\ e.req = e.size /\ e.alloc = e.got /\ (Aligned => e.hal = 1 /\ e.hali = e.al)
                      /\ (~Aligned => e.hal = 0 \/ (e.kind \in {0, 1} /\ e.hali = 16)))) = TRUE
  /\ whole' = (IF Hit(e.b) THEN iv ELSE whole)
  /\ UNCHANGED <<iv, ready, step, left>>
End == e.op = "end" /\ UNCHANGED <<iv, ready, step, left, whole>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (Set \/ Own \/ Bytes \/ Spread \/ Whole \/ Alloc \/ End)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"TRACE", TLCGet("stats").diameter, Len(Trace)>>)
=============================================================================
