-------------------------------- MODULE Codegen --------------------------------
(* Parameter tables: what enumeration a table stands for.  A table is a sequence *)
(* of lines, a line a sequence of character codes.  Codes are pairs <<discipline,*)
(* category * 256 + number>>.                                                    *)
EXTENDS Integers, Sequences, FiniteSets

Digit(c) == 48 <= c /\ c <= 57
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE Value(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
NumTo(s, max) == s # <<>> /\ (\A i \in 1..Len(s) : Digit(s[i])) /\ Len(Strip(s)) <= 5 /\ Value(Strip(s)) <= max
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # <<>> /\ s[Len(s)] \in {9, 10, 11, 12, 13, 32} THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* the fields between colons
Colons(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = 58)
Fields(s) == LET p == <<0>> \o Colons(s) \o <<Len(s) + 1>> IN [k \in 1..Len(p)-1 |-> SubSeq(s, p[k] + 1, p[k + 1] - 1)]

\* <<discipline, _, version, version, centre, version, category, number, name, description, unit>>
LineOk(line) ==
  LET f == Fields(TrimEnd(line)) IN
  /\ Len(f) >= 11
  /\ NumTo(f[1], 255) /\ NumTo(f[3], 255) /\ NumTo(f[4], 255) /\ NumTo(f[5], 65535) /\ NumTo(f[6], 255) /\ NumTo(f[7], 255) /\ NumTo(f[8], 255)
N(s) == Value(Strip(s))
Code(line) == LET f == Fields(TrimEnd(line)) IN <<N(f[1]), N(f[7]) * 256 + N(f[8])>>
Abbr(line) == Fields(TrimEnd(line))[9]
\* the identifier of an abbreviation: an underscore before it, hyphens made underscores
Ident(a) == <<95>> \o [i \in 1..Len(a) |-> IF a[i] = 45 THEN 95 ELSE a[i]]

TableOk(lines) == \A i \in 1..Len(lines) : LineOk(lines[i])
\* abbreviations with the same identifier are the same
Ids(lines) == {Ident(Abbr(lines[i])) : i \in 1..Len(lines)}
\* judged: no code has two abbreviations
Clear(lines) == \A i, j \in 1..Len(lines) : Code(lines[i]) = Code(lines[j]) => Ident(Abbr(lines[i])) = Ident(Abbr(lines[j]))
FirstOf(lines, a) == CHOOSE i \in 1..Len(lines) : Ident(Abbr(lines[i])) = a /\ \A j \in 1..i-1 : Ident(Abbr(lines[j])) # a
Variants(lines) == {<<a, Code(lines[FirstOf(lines, a)])>> : a \in Ids(lines)}
Conversion(lines) == {<<Code(lines[i]), Ident(Abbr(lines[i]))>> : i \in 1..Len(lines)}
===============================================================================
