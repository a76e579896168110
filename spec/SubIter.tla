------------------------------- MODULE SubIter -------------------------------
(* The iterator over the submessages of a file (SubmessageIterator,             *)
(* src/context.rs): a position in a list of n elements, which clones share      *)
(* nothing with.  A client holds several and works with one of them.            *)
(* An element is its index counted from 1; 0 stands for "none".                 *)
EXTENDS Integers, Sequences

Init0 == [its |-> <<0>>, cur |-> 1]     \* positions: number of elements passed

Min(a, b) == IF a < b THEN a ELSE b
Ceil(a, b) == (a + b - 1) \div b

\* the elements a step_by(k) picks from position p on (k > 0), at most 12
Stepped(n, p, k) ==
  LET m == IF p >= n THEN 0 ELSE Ceil(n - p, k)
  IN [i \in 1..Min(m, 12) |-> p + (i - 1) * k + 1]

\* the elements from position p on, and those but the first k of them
Rest(n, p) == [i \in 1..(n - p) |-> p + i]
But(n, p, k) == IF k < n - p THEN Rest(n, p + k) ELSE <<>>
Upto(n, p, k) == IF k < n - p THEN [i \in 1..k |-> p + i] ELSE Rest(n, p)

\* the operations whose results are elements
OfElements == {"next", "nth", "skip", "last", "step", "reborrow", "collect", "each", "drop", "take"}

\* <<new state, result>> of operation o = <<name, argument>>
Apply(n, s, o) ==
  LET p == s.its[s.cur]
      at(q) == [s EXCEPT !.its[s.cur] = q]
      nth(k) == IF k < n - p THEN <<at(p + k + 1), <<p + k + 1>>>> ELSE <<at(n), <<>>>>
  IN CASE o[1] = "next"     -> nth(0)
       [] o[1] = "nth"      -> nth(o[2])
       [] o[1] = "skip"     -> nth(o[2])
       [] o[1] = "hint"     -> <<s, <<n - p, n - p>>>>
       [] o[1] = "count"    -> <<s, <<n - p>>>>
       [] o[1] = "last"     -> <<s, IF p < n THEN <<n>> ELSE <<>>>>
       [] o[1] = "step"     -> <<s, Stepped(n, p, o[2])>>
       [] o[1] = "reborrow" -> <<s, Stepped(n, p, 1)>>
       [] o[1] = "collect"  -> <<s, Rest(n, p)>>            \* of a clone
       [] o[1] = "each"     -> <<s, Rest(n, p)>>
       [] o[1] = "drop"     -> <<s, But(n, p, o[2])>>
       [] o[1] = "take"     -> <<s, Upto(n, p, o[2])>>
       [] o[1] = "clone"    -> <<[s EXCEPT !.its = Append(@, p)], <<Len(s.its)>>>>
       [] o[1] = "use"      -> <<[s EXCEPT !.cur = (o[2] % Len(s.its)) + 1], <<o[2] % Len(s.its)>>>>
=============================================================================
