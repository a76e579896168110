------------------------------ MODULE Grib2File ------------------------------
(* Reader at the real layout of GRIB edition 2, its inverse, and the submessages*)
(* of a file.                                                                   *)
EXTENDS Grouping

Cap == 1073741824    \* 2^30

\* least sizes of sections 1-7, header included
MinSect(n) == IF n \in 1..7 THEN <<21, 5, 14, 9, 11, 6, 5>>[n] ELSE 0

F == INSTANCE Reader WITH
  Magic <- <<71, 82, 73, 66>>, IS <- 16, VerPos <- 7, Version <- 2, LenPos <- 8, LenN <- 8, HLen <- 4,
  EndMark <- <<55, 55, 55, 55>>, Window <- 4096, MinSize <- MinSect, BodyOk <- LAMBDA f, n, o : TRUE, Cap <- Cap,
  file <- 0, pos <- 0, rest <- 0, want <- 0, buf <- 0, pc <- 0, head <- 0, out <- 0, faulted <- 0

Items(f, p) == F!Items(f, p)
ItemsW(f, p) == F!ItemsW(f, p)

------------------------------------------------------------------------------
(* Encoding.                                                                    *)
RECURSIVE Be(_, _)
Be(x, n) == IF n = 0 THEN <<>> ELSE Append(Be(x \div 256, n - 1), x % 256)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

EncSect(s) == Be(Len(s.body) + 5, 4) \o <<s.num>> \o s.body

\* a message: [disc, sects]
EncMsg(m) ==
  LET body == Concat([i \in 1..Len(m.sects) |-> EncSect(m.sects[i])])
  IN <<71, 82, 73, 66, 0, 0, m.disc, 2>> \o Be(Len(body) + 20, 8) \o body \o <<55, 55, 55, 55>>

\* a file: messages, each with octets before it, and octets at the end
EncFile(f) == Concat([i \in 1..Len(f.msgs) |-> f.gaps[i] \o EncMsg(f.msgs[i])]) \o f.gaps[Len(f.msgs) + 1]

\* what reading it must deliver: message by message, section by section
RECURSIVE TileSects(_, _)
TileSects(ss, o) ==
  IF ss = <<>> THEN <<>>
  ELSE <<F!Sect(Head(ss).num, o, Len(Head(ss).body) + 5, Head(ss).num)>>
       \o TileSects(Tail(ss), o + Len(Head(ss).body) + 5)

Tile(m, o) ==
  LET size == Len(EncMsg(m)) IN
  <<F!Sect(0, o, 16, 0)>> \o TileSects(m.sects, o + 16) \o <<F!Sect(8, o + size - 4, 4, -1)>>

RECURSIVE TileMsgs(_, _, _)
TileMsgs(f, i, o) ==
  IF i > Len(f.msgs) THEN <<F!End>>
  ELSE LET p == o + Len(f.gaps[i]) IN Tile(f.msgs[i], p) \o TileMsgs(f, i + 1, p + Len(EncMsg(f.msgs[i])))

Tiling(f) == TileMsgs(f, 1, 0)

------------------------------------------------------------------------------
(* Submessages of a list of items.                                              *)
Numbers(items) ==
  [i \in 1..(IF items[Len(items)].k = "end" THEN Len(items) - 1 ELSE Len(items)) |->
     IF items[i].k = "sect" THEN items[i].num ELSE ReadErr]

SubsOf(items) == Group(Numbers(items))

Parts(items, x) ==
  [j \in 1..8 |-> IF x.parts[j] = 0 THEN <<>>
                  ELSE LET s == items[x.parts[j]] IN <<s.num, s.off, s.size>>]
EndPart(items, x) == LET s == items[x.end] IN <<s.num, s.off, s.size>>
=============================================================================
