--------------------------------- MODULE Cli ----------------------------------
(* The command-line tool.  A request is                                          *)
(*   [cmd, flags, index, out, target]                                            *)
(* with cmd one of "info", "list", "inspect", "decode"; flags a sequence of      *)
(* option letters; index the characters of a submessage index; out "text",       *)
(* "big", "little" or "both"; target where binary output goes: "ok", or one that *)
(* cannot be written ("bad").  A file as the library sees it is                  *)
(*   [open, subs, sections, tmpls]                                               *)
(* and every submessage has id, info, values, latlons and the texts to be shown. *)
EXTENDS Integers, Sequences, FiniteSets

Digit(c) == 48 <= c /\ c <= 57
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : Digit(s[i])
RECURSIVE Strip(_)
Strip(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Strip(Tail(s)) ELSE s
RECURSIVE Value(_)
Value(s) == IF s = <<>> THEN 0 ELSE Value(SubSeq(s, 1, Len(s) - 1)) * 10 + (s[Len(s)] - 48)
Dots(s) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = 46)
\* two numbers with a dot between: <<m, k>>; numbers no submessage can have are -1
Small(s) == LET t == Strip(s) IN IF Len(t) > 8 THEN -1 ELSE Value(t)
Index(s) ==
  IF Len(Dots(s)) # 1 THEN <<>>
  ELSE LET d == Dots(s)[1] a == SubSeq(s, 1, d - 1) b == SubSeq(s, d + 1, Len(s))
       IN IF AllDigits(a) /\ AllDigits(b) THEN <<Small(a), Small(b)>> ELSE <<>>

SubsWith(lib, id) == SelectSeq(lib.subs, LAMBDA s : s.id = id)
Firsts(lib) == SelectSeq(lib.subs, LAMBDA s : s.id[2] = 0)
Usable(lib) == lib.open = "ok" /\ lib.subs # <<>>

\* "ok", "fail", or "any" where it is not judged
Outcome(lib, r) ==
  IF r.out = "both" THEN "fail"
  ELSE IF ~Usable(lib) THEN "fail"
  ELSE IF r.cmd = "info" THEN IF \E i \in 1..Len(Firsts(lib)) : Firsts(lib)[i].info.time[1] # "ok" THEN "fail" ELSE "ok"
  ELSE IF r.cmd # "decode" THEN "ok"
  ELSE IF Index(r.index) = <<>> THEN "fail"
  ELSE LET found == SubsWith(lib, Index(r.index)) IN
       IF found = <<>> THEN "fail"
       ELSE LET s == found[1] IN
            IF s.values.k # "ok" THEN "fail"
            ELSE IF r.out = "text" THEN IF s.latlons.k = "err" THEN "fail" ELSE "ok"
            ELSE IF r.target = "ok" THEN "ok" ELSE IF s.values.v = <<>> THEN "any" ELSE "fail"

\* which parts inspect shows
Parts(flags) == IF flags = <<>> THEN <<"s", "m", "t">> ELSE SelectSeq(<<"s", "m", "t">>, LAMBDA p : \E i \in 1..Len(flags) : flags[i] = p)
===============================================================================
