------------------------------- MODULE MCTables -------------------------------
(* The generator's walk over the rows of a table - a next index, reserved codes  *)
(* pending until a text follows them, and a mark that the table has holes - held *)
(* against the array the rows stand for, for every short sequence of rows.       *)
EXTENDS Tables, TLC, Json
CONSTANT MaxRows
VARIABLES rows, out, pending, sparse, failed
vars == <<rows, out, pending, sparse, failed>>

\* "0" "1" "2" "3" "0-1" "1-2" "2-3" "1-3" "" "2-1" "N"
CodeSet == {<<48>>, <<49>>, <<50>>, <<51>>, <<48, 45, 49>>, <<49, 45, 50>>, <<50, 45, 51>>, <<49, 45, 51>>, <<>>, <<50, 45, 49>>, <<78>>}
Texts == <<"a", "b", "c", "d", "e", "f">>
Init == rows = <<>> /\ out = <<>> /\ pending = 0 /\ sparse = FALSE /\ failed = FALSE
Row(code, place) ==
  LET text == IF place THEN "Reserved" ELSE Texts[Len(rows) + 1]
      r == Codes(code)
      full == out \o [i \in 1..pending |-> ""]
  IN /\ Len(rows) < MaxRows
     /\ rows' = Append(rows, <<code, text>>)
     /\ IF r = <<>> \/ failed THEN UNCHANGED <<out, pending, sparse, failed>>
        ELSE IF place THEN /\ sparse' = (sparse \/ Len(out) + pending # r[1])
                           /\ pending' = pending + (r[2] - r[1] + 1) /\ UNCHANGED <<out, failed>>
        ELSE /\ failed' = (sparse \/ Len(full) # r[1]) /\ pending' = 0 /\ UNCHANGED sparse
             /\ out' = IF failed' THEN <<>> ELSE full \o [i \in 1..r[2] - r[1] + 1 |-> text]
Next == \E code \in CodeSet : Row(code, TRUE) \/ Row(code, FALSE)
Spec == Init /\ [][Next]_vars

Same == out = Array(rows)
\* a text is only ever at a code of its own row
Own == \A k \in 1..Len(out) : out[k] = "" \/ \E i \in 1..Len(rows) : rows[i][2] = out[k] /\ Codes(rows[i][1])[1] <= k - 1 /\ k - 1 <= Codes(rows[i][1])[2]
\* what has been put out stays
Grows == [][~failed' => SubSeq(out', 1, Len(out)) = out]_vars
Emit == PrintT("@@" \o ToJson([rows |-> rows, array |-> Array(rows)]))
===============================================================================
