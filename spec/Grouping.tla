------------------------------ MODULE Grouping ------------------------------
(* Grouping of sections into submessages (src/parser.rs).                       *)
(*                                                                              *)
(*   file    ::= message*                                                       *)
(*   message ::= 0 1 ( [[2] 3] 4 5 6 7 )+ 8     the first group having a 3      *)
(*                                                                              *)
(* A stream of sections (their numbers; 99 stands for an error of the stream)   *)
(* is consumed one at a time.                                                   *)
EXTENDS Integers, Sequences, FiniteSets

ReadErr == 99

\* Where the grammar stands: "start" (between messages), "after0", "after1",
\* "after2", "after3", "after4", "after5", "after6", "after7", "dead"
Init0 == [at  |-> "start",
          n   |-> 0,             \* sections consumed
          m   |-> 0,             \* messages completed
          s   |-> 0,             \* submessages of the current message completed
          cur |-> <<0, 0, 0, 0, 0, 0, 0, 0>>, \* index of the section last seen with each number 0..7, 0 if none
          out |-> <<>>]

Sub(g, last) == [k |-> "sub", m |-> g.m, s |-> g.s,
                 parts |-> g.cur, end |-> last]

Fail(g, kind, p) == [g EXCEPT !.at = "dead", !.out = Append(@, [k |-> "err", e |-> kind, a |-> p]), !.n = @ + 1]

Wrong(g) == Fail(g, "InvalidSectionOrder", g.n)

Put(g, num, at) == [g EXCEPT !.at = at, !.n = @ + 1, !.cur[num + 1] = g.n + 1]

Name(num) == <<"after0", "after1", "after2", "after3", "after4", "after5", "after6", "after7">>[num + 1]

\* One more section.  Positions in errors count from 0, indices in cur from 1.
Step(g, num) ==
  IF g.at = "dead" THEN g
  ELSE IF num = ReadErr THEN Fail(g, "ReadError", 0)
  ELSE CASE g.at = "start" -> IF num = 0 THEN Put(g, 0, "after0") ELSE Wrong(g)
    [] g.at = "after0" -> IF num = 1 THEN Put(g, 1, "after1") ELSE Wrong(g)
    [] g.at = "after1" ->
         IF num \in {2, 3} THEN Put(g, num, Name(num))
         ELSE IF num = 4 THEN Fail(g, "NoGridDefinition", g.n)
         ELSE Wrong(g)
    [] g.at = "after2" -> IF num = 3 THEN Put(g, 3, "after3") ELSE Wrong(g)
    [] g.at = "after3" -> IF num = 4 THEN Put(g, 4, "after4") ELSE Wrong(g)
    [] g.at = "after4" -> IF num = 5 THEN Put(g, 5, "after5") ELSE Wrong(g)
    [] g.at = "after5" -> IF num = 6 THEN Put(g, 6, "after6") ELSE Wrong(g)
    [] g.at = "after6" -> IF num = 7 THEN Put(g, 7, "after7") ELSE Wrong(g)
    [] g.at = "after7" ->
         \* the submessage is handed out once a section follows it
         IF num = 8 THEN [Init0 EXCEPT !.n = g.n + 1, !.m = g.m + 1, !.out = Append(g.out, Sub(g, g.n + 1))]
         ELSE IF num \in {2, 3, 4}
         THEN [Put(g, num, Name(num)) EXCEPT !.out = Append(@, Sub(g, 0)), !.s = @ + 1]
         ELSE Wrong([g EXCEPT !.out = Append(@, Sub(g, 0))])

\* the stream ends
Finish(g) ==
  IF g.at = "dead" THEN g
  ELSE IF g.at = "start" THEN [g EXCEPT !.at = "dead", !.out = Append(@, [k |-> "end"])]
  ELSE [g EXCEPT !.at = "dead", !.out = Append(@, [k |-> "err", e |-> "UnexpectedEndOfData", a |-> g.n - 1])]

RECURSIVE Run(_, _, _)
Run(g, seq, i) == IF i > Len(seq) THEN g ELSE Run(Step(g, seq[i]), seq, i + 1)

Group(seq) == Finish(Run(Init0, seq, 1)).out

------------------------------------------------------------------------------
(* The same, said of the sequence as a whole.                                   *)
Subs(out) == SelectSeq(out, LAMBDA x : x.k = "sub")

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* index of the last section numbered num up to i within the message of i; 0 if none
LastIn(seq, num, i) ==
  LET b == MaxOf({j \in 1..i : seq[j] = 0})
      S == {j \in b..i : seq[j] = num}
  IN IF S = {} THEN 0 ELSE MaxOf(S)

\* the sections 7 among the accepted ones, in order
Sevens(seq, n) == {i \in 1..n : seq[i] = 7}

Declared(seq, g) ==
  LET subs == Subs(g.out)
  IN \A j \in 1..Len(subs) :
       LET i == subs[j].parts[8] IN
       /\ seq[i] = 7
       /\ Cardinality({x \in Sevens(seq, i) : TRUE}) = j
       /\ subs[j].parts = [q \in 1..8 |-> LastIn(seq, q - 1, i)]
       /\ subs[j].parts[5] = i - 3 /\ subs[j].parts[6] = i - 2 /\ subs[j].parts[7] = i - 1
       /\ subs[j].m = Cardinality({x \in 1..i : seq[x] = 0}) - 1
       /\ subs[j].s = Cardinality({x \in MaxOf({y \in 1..i : seq[y] = 0})..i : seq[x] = 7}) - 1
=============================================================================
