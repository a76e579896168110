----------------------------- MODULE TraceDecode -----------------------------
(* Decoding runs of the real code, one per record, held against Packing.  The   *)
(* record is the field together with res (how setting up ended), n (number of   *)
(* items drawn), vals (bit patterns of the items; "-1" for NaN), hints (triples *)
(* <<items drawn, lower bound, upper bound>>), and after (items drawn past the  *)
(* end).  faults is the number of I/O errors injected: if there was one, the    *)
(* run must have reported an error.                                             *)
EXTENDS Packing, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

\* A grid of very many points without a bitmap whose data hold no more than 2000 values: what there is
\* does not depend on how many points there are beyond those.
Whole(f) == f.npts <= 100000
Verdict(f) ==
  IF Whole(f) THEN Field(f)
  ELSE IF Tmpl(f.s5) = 200 THEN RunLength(f, 0)
  ELSE LET w == Field([f EXCEPT !.npts = 2000]) IN IF w.k = "ok" THEN [w EXCEPT !.complete = FALSE] ELSE w

ItemOk(p, x, o) == IF x = Missing THEN o = "-1" ELSE Judged(p) => o # "-1" /\ ValueOk(p, x, QF32Of(o))

Ok(c) ==
  LET w == Verdict(c) IN
  CASE c.res.k \notin {"ok", "err"} -> FALSE
    [] c.faults > 0 -> c.res.k = "err"
    [] w.k = "err" -> c.res.k = "err"
    [] w.k = "any" -> c.res.k = "err" \/ c.n <= c.npts
    [] w.k = "ok" /\ w.complete ->
         /\ c.res.k = "ok" /\ c.n = c.npts /\ c.after = <<>>
         /\ \A i \in 1..Len(c.hints) : LET h == c.hints[i] IN h[2] = c.npts - h[1] /\ h[3] = h[2]
         /\ \A i \in 1..Len(c.vals) : ItemOk(w.p, w.items[i], c.vals[i])
    [] w.k = "ok" /\ ~w.complete ->
         \/ c.res.k = "err"
         \/ /\ c.n <= c.npts
            /\ \A i \in 1..Min2(Len(c.vals), Len(w.items)) : ItemOk(w.p, w.items[i], c.vals[i])

Want(c) ==
  LET w == Verdict(c) IN
  IF w.k # "ok" THEN w
  ELSE [k |-> "ok", complete |-> w.complete,
        items |-> [i \in 1..Min2(30, Len(w.items)) |->
                     IF w.items[i] = Missing \/ ~Judged(w.p) THEN w.items[i] ELSE Value(w.p, w.items[i])]]

\* what the verdict of the specification was, for the evidence
Kind(c) == LET w == Verdict(c) IN IF w.k # "ok" THEN w.k ELSE IF ~w.complete THEN "short" ELSE IF Judged(w.p) THEN "judged" ELSE "ok"

VARIABLES l, seen
Init == l = 1 /\ seen = [k \in {"err", "any", "short", "judged", "ok"} |-> 0]
Next ==
  \/ /\ l <= Len(Cases)
     /\ IF Ok(Cases[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> Want(Cases[l])]))
     /\ l' = l + 1
     /\ seen' = [seen EXCEPT ![Kind(Cases[l])] = @ + 1]
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases), seen |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
