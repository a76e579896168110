-------------------------------- MODULE Tables --------------------------------
(* The generator of code tables.  A row is <<code, text, title, subtitle>>; code *)
(* and subtitle are sequences of character codes, text and title are strings.    *)
(* A table is exported as an array of texts, indexed by code.                    *)
EXTENDS Integers, Sequences, FiniteSets

Placeholder == {"Future versions", "Reserved", "Reserved for local use", "Reserved for other centres",
                "Missing", "Missing value", ")"}

---------------------------------------------------------------------------
(* Character sequences *)
Digit(c) == 48 <= c /\ c <= 57
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE Value(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
\* a number up to 255, leading zeros allowed: <<n>> or <<>>
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
Num8(s) == IF ~AllDigits(s) \/ Len(Strip(s)) > 3 THEN <<>> ELSE LET v == Value(Strip(s)) IN IF v <= 255 THEN <<v>> ELSE <<>>
\* position of the first occurrence of t in s, 0 if there is none
At(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
RECURSIVE FindFrom(_, _, _)
FindFrom(s, i, t) == IF i + Len(t) - 1 > Len(s) THEN 0 ELSE IF At(s, i, t) THEN i ELSE FindFrom(s, i + 1, t)
Find(s, t) == FindFrom(s, 1, t)
RECURSIVE Split(_, _)
Split(s, t) == LET i == Find(s, t) IN IF i = 0 THEN <<s>> ELSE <<SubSeq(s, 1, i - 1)>> \o Split(SubSeq(s, i + Len(t), Len(s)), t)
Word(w, k) == IF k <= Len(w) THEN w[k] ELSE <<>>

---------------------------------------------------------------------------
(* The codes of a row: <<first, last>>, or <<>> if there are none *)
IsCode(s) == AllDigits(s) /\ Len(Strip(s)) <= 9
Codes(s) ==
  IF IsCode(s) THEN <<Value(s), Value(s)>>
  ELSE LET w == Split(s, <<45>>) IN
       IF Len(w) = 2 /\ IsCode(w[1]) /\ IsCode(w[2]) /\ Value(w[1]) <= Value(w[2]) THEN <<Value(w[1]), Value(w[2])>> ELSE <<>>

\* The array of a table's rows <<code, text>>: rows with codes, up to the last that is no
\* placeholder, must continue each other from 0 on.
Array(rows) ==
  LET num == SelectSeq([i \in 1..Len(rows) |-> <<Codes(rows[i][1]), rows[i][2]>>], LAMBDA r : r[1] # <<>>)
      real == {i \in 1..Len(num) : num[i][2] \notin Placeholder}
      last == CHOOSE i \in real : \A j \in real : j <= i
      upto == SubSeq(num, 1, last)
      first(i) == IF i = 1 THEN 0 ELSE upto[i - 1][1][2] + 1
  IN IF real = {} THEN <<>>
     ELSE IF \E i \in 1..last : upto[i][1][1] # first(i) THEN <<>>
     ELSE [k \in 1..upto[last][1][2] + 1 |->
             LET r == CHOOSE i \in 1..last : upto[i][1][1] <= k - 1 /\ k - 1 <= upto[i][1][2]
             IN IF upto[r][2] \in Placeholder THEN "" ELSE upto[r][2]]

---------------------------------------------------------------------------
(* GRIB2 code tables: ids are <<section, number>> followed by the discipline and the category *)
\* "Product discipline"  "parameter category"  "GRIB2"  "CodeFlag"
Prod1 == <<80, 114, 111, 100, 117, 99, 116>>
Disc1 == <<100, 105, 115, 99, 105, 112, 108, 105, 110, 101>>
Param1 == <<112, 97, 114, 97, 109, 101, 116, 101, 114>>
Cat1 == <<99, 97, 116, 101, 103, 111, 114, 121>>
Grib2 == <<71, 82, 73, 66, 50>>
CodeFlag == <<67, 111, 100, 101, 70, 108, 97, 103>>

\* what a subtitle adds to the id: <<"ok", numbers>> or <<"err">>
Subtitle(s) ==
  IF s = <<>> THEN <<"ok", <<>>>>
  ELSE LET parts == Split(s, <<44, 32>>)
           w == Split(parts[1], <<32>>)
           d == IF Word(w, 1) = Prod1 /\ Word(w, 2) = Disc1 THEN Num8(Word(w, 3)) ELSE <<>>
       IN IF d = <<>> THEN <<"err">>
          ELSE IF Len(parts) = 1 THEN <<"ok", d>>
          ELSE LET v == Split(Split(parts[2], <<58>>)[1], <<32>>)
                   c == IF Word(v, 1) = Param1 /\ Word(v, 2) = Cat1 THEN Num8(Word(v, 3)) ELSE <<>>
               IN IF c = <<>> THEN <<"err">> ELSE <<"ok", d \o c>>

\* what a file's name (without directories and extension) says: <<"ok", section, number>>, <<"ignored">> or
\* <<"bad">> (the scheme with something other than numbers up to 255: ignored or an error)
FileName(s) ==
  LET w == Split(s, <<95>>) IN
  IF Len(w) < 4 \/ w[1] # Grib2 \/ w[2] # CodeFlag THEN <<"ignored">>
  ELSE IF Num8(w[3]) = <<>> \/ Num8(w[4]) = <<>> THEN <<"bad">>
  ELSE <<"ok", Num8(w[3])[1], Num8(w[4])[1]>>

\* the tables of a file's rows: a function from ids (without section and number) to [title, rows]
FileIds(rows) == {Subtitle(rows[i][4])[2] : i \in 1..Len(rows)}
FileTable(rows, id) ==
  LET mine == SelectSeq(rows, LAMBDA r : Subtitle(r[4]) = <<"ok", id>>)
  IN [title |-> mine[1][3], rows |-> [i \in 1..Len(mine) |-> <<mine[i][1], mine[i][2]>>]]
RowsOk(rows) == \A i \in 1..Len(rows) : Subtitle(rows[i][4])[1] = "ok"

\* a file is [name, good, rows]; good says whether it is there and is CSV with the columns needed
LoadIs(f) ==
  LET n == FileName(f.name) IN
  IF n[1] = "ignored" THEN "ok" ELSE IF n[1] = "bad" THEN "any" ELSE IF f.good /\ RowsOk(f.rows) THEN "ok" ELSE "err"
\* the tables after loading a file into db (a function from ids to tables)
Loaded(db, f) ==
  LET n == FileName(f.name) IN
  IF n[1] # "ok" \/ LoadIs(f) # "ok" THEN db
  ELSE LET new == {<<n[2], n[3]>> \o x : x \in FileIds(f.rows)} IN
       [id \in DOMAIN db \cup new |-> IF id \in new THEN FileTable(f.rows, SubSeq(id, 3, Len(id))) ELSE db[id]]
RECURSIVE LoadAll(_, _)
LoadAll(db, fs) == IF fs = <<>> THEN db ELSE LoadAll(Loaded(db, Head(fs)), Tail(fs))
Empty == [id \in {} |-> <<>>]

\* ascending: section, number, how much is given, discipline, category
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))
Before(a, b) ==
  IF SubSeq(a, 1, 2) # SubSeq(b, 1, 2) THEN LexLess(SubSeq(a, 1, 2), SubSeq(b, 1, 2))
  ELSE IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLess(a, b)
RECURSIVE Sorted(_)
Sorted(ids) == IF ids = {} THEN <<>> ELSE LET x == CHOOSE a \in ids : \A b \in ids \ {a} : Before(a, b) IN <<x>> \o Sorted(ids \ {x})

---------------------------------------------------------------------------
(* Common code tables: a file is [name ("C00", "C11" or another), good, rows of <<code, text>>] *)
CctLoadIs(f) == IF f.name \notin {"C00", "C11"} THEN "ok" ELSE IF f.good THEN "ok" ELSE "err"
CctId(f) == IF f.name = "C00" THEN 0 ELSE 11
CctLoaded(db, f) ==
  IF f.name \notin {"C00", "C11"} \/ ~f.good THEN db
  ELSE [id \in DOMAIN db \cup {CctId(f)} |-> IF id = CctId(f) THEN f.rows ELSE db[id]]
RECURSIVE CctAll(_, _)
CctAll(db, fs) == IF fs = <<>> THEN db ELSE CctAll(CctLoaded(db, Head(fs)), Tail(fs))
===============================================================================
