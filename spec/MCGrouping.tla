----------------------------- MODULE MCGrouping -----------------------------
(* Every section sequence of at most Depth sections that the grammar accepts so *)
(* far, each with every wrong continuation (section numbers that cannot follow,  *)
(* an error of the stream, the end), with the submessages and the error that     *)
(* must come out.                                                                *)
EXTENDS Grouping, TLC, Json

CONSTANTS Depth, Nums, MaxSubs, MaxMsgs

VARIABLES seq, g, closed
vars == <<seq, g, closed>>

Init == seq = <<>> /\ g = Init0 /\ closed = FALSE

Say(q, out) == PrintT("@@" \o ToJson([seq |-> q, out |-> out]))

Take ==
  /\ ~closed /\ Len(seq) < Depth
  /\ \E num \in Nums :
       /\ seq' = Append(seq, num)
       /\ g' = Step(g, num)
       /\ IF g'.at = "dead" THEN closed' = TRUE /\ Say(seq', g'.out)
          ELSE closed' = FALSE
  /\ g'.m <= MaxMsgs /\ g'.s <= MaxSubs

Stop ==
  /\ ~closed
  /\ closed' = TRUE /\ g' = Finish(g) /\ UNCHANGED seq
  /\ Say(seq, g'.out)

Next == Take \/ Stop
Spec == Init /\ [][Next]_vars

\* the machine says what the grammar, read as a whole, says
Sound == Declared(seq, g)
\* one submessage for every section 7 in place that some section follows
InPlace == {i \in Sevens(seq, Len(seq)) : i > 1 /\ seq[i - 1] = 6 /\ i < Len(seq) /\ seq[i + 1] # ReadErr}
Exact == Len(Subs(g.out)) = Cardinality(InPlace)
AfterError == closed => Group(seq) = g.out
=============================================================================
