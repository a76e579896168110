------------------------------- MODULE TraceLong -------------------------------
(* Long runs of the real decoder held against the machine of Long, a stretch of  *)
(* items per step.  vals are the first items (all of them if whole), or, of fields *)
(* without a bitmap too long for that, the items at the positions at.            *)
EXTENDS Long, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
\* the set-up of the current field, worked out once (TLC would do it at every step)
Us(k) == TLCGet(1)
SetUp(k) == TLCSet(1, IF k > Len(Cases) \/ Cases[k].res.k # "ok" THEN [none |-> 0] ELSE Setup(Cases[k]))
Stretch == 256
Count == Force([k \in 1..Stretch |-> k])

ItemOk(p, x, o) == IF x = Missing THEN o = "-1" ELSE Judged(p) => o # "-1" /\ ValueOk(p, x, QF32Of(o))
\* what does not need the machine
Frame(c) == /\ c.res.k = "ok" /\ c.n = c.npts /\ c.after = <<>>
            /\ \A i \in 1..Len(c.hints) : LET h == c.hints[i] IN h[2] = c.npts - h[1] /\ h[3] = h[2]
            /\ Len(c.at) = 0 \/ Len(c.vals) = Len(c.at)
            /\ Len(c.vals) <= c.npts /\ (c.whole => Len(c.vals) = c.npts)

VARIABLES l, m, items
vars == <<l, m, items>>
First(k) == IF k > Len(Cases) \/ Cases[k].res.k # "ok" THEN [i |-> 0] ELSE Begin(Cases[k], Us(k))
Bad(at, want) == PrintT("@@" \o ToJson([bad |-> l, at |-> at, want |-> want]))
NextCase == SetUp(l + 1) /\ l' = l + 1 /\ m' = First(l + 1)
Init == SetUp(1) /\ l = 1 /\ m = First(1) /\ items = 0
\* one stretch: the machine after it, and the first item that is not what was seen
Run(c, u) ==
  FoldLeft(LAMBDA a, k :
             IF a.bad # 0 \/ a.m.i >= Len(c.vals) THEN a
             ELSE LET n == DrawPoint(c, u, a.m) IN
                  IF n.end THEN [a EXCEPT !.bad = a.m.i + 1, !.m = n]
                  ELSE IF ItemOk(u.p, n.x, c.vals[n.i]) THEN [a EXCEPT !.m = n] ELSE [m |-> n, bad |-> n.i],
           [m |-> m, bad |-> 0], Count)
\* the machine and the way past whole groups and runs agree (looked at early in the field)
FarAgrees(c, u, n) == (n.i <= 3 * Stretch /\ HasFar(c, u) /\ ~n.end /\ Present(c, n.i)) =>
                        Assert(n.x = Far(c, u, n.r), <<"Far", l, n.i, n.x, Far(c, u, n.r)>>)
Judge ==
  LET c == Cases[l] IN
  IF ~Frame(c) THEN Bad(0, "number of items") /\ NextCase /\ UNCHANGED items
  ELSE IF Len(c.at) # 0
       THEN LET u == Us(l)
                bad == {k \in 1..Len(c.at) : ~ItemOk(u.p, Far(c, u, c.at[k] + 1), c.vals[k])}
            IN IF bad = {} THEN NextCase /\ items' = items + Len(c.at)
               ELSE LET k == CHOOSE k \in bad : TRUE
                        x == Far(c, u, c.at[k] + 1)
                    IN Bad(k, [at |-> c.at[k], x |-> IF x = Missing THEN "missing" ELSE Value(u.p, x)]) /\ NextCase /\ UNCHANGED items
  ELSE IF m.i >= Len(c.vals) THEN NextCase /\ items' = items + m.i
  ELSE LET a == Run(c, Us(l)) IN
       IF a.bad # 0 THEN Bad(a.bad, IF a.m.end THEN "no item" ELSE IF a.m.x = Missing THEN "missing" ELSE Value(Us(l).p, a.m.x)) /\ NextCase /\ UNCHANGED items
       ELSE FarAgrees(c, Us(l), a.m) /\ m' = a.m /\ UNCHANGED <<l, items>>
Next == \/ l <= Len(Cases) /\ Judge
        \/ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases), seen |-> [long_items |-> items]])) /\ l' = l + 1 /\ UNCHANGED <<m, items>>
Spec == Init /\ [][Next]_vars
===============================================================================
