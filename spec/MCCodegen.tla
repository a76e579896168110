------------------------------- MODULE MCCodegen -------------------------------
(* A table read line by line: the variants found so far (with the code of their  *)
(* first line) and the codes that convert, held against the closed form; every   *)
(* table is emitted.                                                             *)
EXTENDS Codegen, TLC, Json
CONSTANTS MaxLines, Small
VARIABLES lines, first, conv, rejected
vars == <<lines, first, conv, rejected>>

C == <<58>>
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE IF n < 100 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Good(a, d, k, n) == Dig(d) \o C \o <<49>> \o C \o <<48>> \o C \o Dig(255) \o C \o <<48>> \o C \o <<48>> \o C \o Dig(k) \o C \o Dig(n) \o C \o a \o C \o <<120>> \o C \o <<75>>
A == <<65>>
BC == <<66, 45, 67>>
B_C == <<66, 95, 67>>  \* the same identifier
FiveX == <<53, 45, 45, 120, 95>>
CodesOf == IF Small THEN {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<1, 0, 0>>} ELSE {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 1, 0>>, <<1, 0, 0>>, <<255, 255, 255>>, <<0, 2, 5>>}
AbbrsOf == IF Small THEN {BC, B_C, FiveX} ELSE {A, BC, B_C, FiveX}
GoodLines == {Good(a, c[1], c[2], c[3]) : a \in AbbrsOf, c \in CodesOf}
\* malformed: no line, a field less, too large and unreadable numbers
BadLines ==
  LET g == Good(A, 0, 0, 0) IN
  {<<>>, <<65>>, SubSeq(g, 1, Len(g) - 2), Good(A, 256, 0, 0), Good(A, 0, 256, 0), Good(A, 0, 0, 256), <<45>> \o g, <<32>> \o g, <<35>> \o g,
   <<48>> \o C \o <<49>> \o C \o <<120>> \o SubSeq(g, 6, Len(g)), C \o SubSeq(g, 3, Len(g))}
Init == lines = <<>> /\ first = {} /\ conv = {} /\ rejected = FALSE
Add(l) ==
  /\ Len(lines) < MaxLines /\ ~rejected
  /\ lines' = Append(lines, l)
  /\ IF ~LineOk(l) THEN rejected' = TRUE /\ first' = {} /\ conv' = {}
     ELSE /\ Clear(Append(lines, l))
          /\ rejected' = FALSE
          /\ first' = IF \E v \in first : v[1] = Ident(Abbr(l)) THEN first ELSE first \cup {<<Ident(Abbr(l)), Code(l)>>}
          /\ conv' = conv \cup {<<Code(l), Ident(Abbr(l))>>}
Next == \E l \in GoodLines \cup BadLines : Add(l)
Spec == Init /\ [][Next]_vars
Same == IF rejected THEN ~TableOk(lines) ELSE TableOk(lines) /\ first = Variants(lines) /\ conv = Conversion(lines)
\* conversions go to variants that exist, every variant's own code goes to it, a code goes to one
Sound == /\ \A c \in conv : \E v \in first : v[1] = c[2]
         /\ \A v \in first : <<v[2], v[1]>> \in conv
         /\ \A c, d \in conv : c[1] = d[1] => c = d
Emit == lines # <<>> => PrintT("@@" \o ToJson([lines |-> lines, rejected |-> rejected, first |-> first, conv |-> conv]))
===============================================================================
