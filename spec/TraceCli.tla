------------------------------- MODULE TraceCli -------------------------------
(* Runs of gribber held against Cli.  lib is what the library says of the file,  *)
(* texts as sequences of words; run is the request, the exit status, what went   *)
(* to the two outputs (lines of words), and the octets of the file written.      *)
EXTENDS Cli, Rat, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)

IdText(id) == ToString(id[1]) \o "." \o ToString(id[2])
AnyLine == <<"*">>

\* --- words of the lines -------------------------------------------------------
HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE Hex(_, _)
Hex(n, k) == IF k = 0 THEN "" ELSE Hex(n \div 16, k - 1) \o HexDigit[(n % 16) + 1]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Cat(Tail(q))
Map(q, F(_, _)) == [i \in 1..Len(q) |-> F(i, q[i])]

InfoLabels == << <<"Discipline:">>, <<"Total", "Length:">>, <<"Originating/generating", "centre:">>, <<"Originating/generating", "sub-centre:">>,
                 <<"GRIB", "Master", "Tables", "Version", "Number:">>, <<"GRIB", "Local", "Tables", "Version", "Number:">>,
                 <<"Significance", "of", "Reference", "Time:">>, <<"Reference", "time", "of", "data:">>,
                 <<"Production", "status", "of", "processed", "data:">>, <<"Type", "of", "processed", "data:">> >>
InfoOf(s) ==
  LET t == s.info.texts
      v == SubSeq(t, 1, 7) \o <<s.info.time[2]>> \o SubSeq(t, 8, 9)
  IN << <<"Message", ToString(s.id[1])>> >> \o [i \in 1..10 |-> InfoLabels[i] \o v[i]]
InfoLines(lib) == LET f == Firsts(lib) IN Cat(Map(f, LAMBDA i, s : InfoOf(s)))

Surface(x) == x[1] \o (IF x[2] = <<>> THEN <<>> ELSE x[2])
ListLine(s) ==
  <<IdText(s.id), "|">> \o s.param \o s.gen \o s.ft \o (IF s.surf = <<>> THEN <<>> ELSE Surface(s.surf[1]) \o Surface(s.surf[2]))
  \o <<"|", QMax("0", QSub(s.total, s.repr)), "/", s.total>> \o (IF s.grid = <<>> THEN <<"unknown", "(template", s.gridtmpl \o ")">> ELSE s.grid)
ListLines(lib) == <<AnyLine>> \o Map(lib.subs, LAMBDA i, s : ListLine(s))
DumpLines(lib) == Cat(Map(lib.subs, LAMBDA i, s : << <<IdText(s.id)>> >> \o s.describe))

SectionLine(i, x) == <<ToString(i - 1), "|", Hex(x[2], 16), "-", Hex(x[2] + x[3], 16), "|", "Section", ToString(x[1])>>
SubLine(s) == <<IdText(s.id), "|">> \o s.sects \o <<"|">> \o s.tmpls
Title(p) == CASE p = "s" -> "Sections:" [] p = "m" -> "SubMessages:" [] p = "t" -> "Templates:"
Part(lib, p) ==
  CASE p = "s" -> Map(lib.sections, SectionLine)
    [] p = "m" -> <<AnyLine>> \o Map(lib.subs, LAMBDA i, s : SubLine(s))
    [] p = "t" -> lib.tmpls
InspectLines(lib, flags) ==
  LET ps == Parts(flags) IN Cat([i \in 1..Len(ps) |-> (IF Len(ps) > 1 THEN << <<Title(ps[i])>> >> ELSE <<>>) \o Part(lib, ps[i])])

LineIs(w, g) == w = AnyLine \/ g = w
SameLines(w, g) == Len(w) = Len(g) /\ \A i \in 1..Len(w) : LineIs(w[i], g[i])

\* --- numbers ------------------------------------------------------------------
Special(v, t) == CASE v = "nan" -> t = "NaN" [] v = "inf" -> t = "inf" [] v = "-inf" -> t = "-inf"
Finite(v) == v \notin {"nan", "inf", "-inf"}
Near(v, t, eps) == IF ~Finite(v) THEN Special(v, t)
                   ELSE QDec(t) # "nan" /\ QLe(QAbs(QSub(v, QDec(t))), eps)
HalfMicro == "1/2000000"
\* the token denotes this single-precision number and no other
ValueEps(v) == IF Finite(v) THEN QMax(QMul(QAbs(v), QPow("2", -24)), QPow("2", -150)) ELSE "0"
Coord(b) == QF32Of(b)
PointIs(ll, v, g) ==
  /\ Len(g) = 3
  /\ Near(ll[1], g[1], HalfMicro) /\ Near(ll[2], g[2], HalfMicro)
  /\ LET x == QF32Of(v) IN Near(x, g[3], ValueEps(x))
PointsAre(s, g) ==
  LET n == Len(s.values.v) IN
  /\ Len(g) = n + 1
  /\ \A i \in 1..n : PointIs(IF s.latlons.k = "ok" THEN <<Coord(s.latlons.v[i][1]), Coord(s.latlons.v[i][2])>> ELSE <<"nan", "nan">>, s.values.v[i], g[i + 1])

\* --- octets -------------------------------------------------------------------
Octets(o, order, i) == LET p == SubSeq(o, (4 * (i - 1)) + 1, 4 * i) IN IF order = "big" THEN p ELSE <<p[4], p[3], p[2], p[1]>>
OctetsAre(s, o, order) ==
  LET n == Len(s.values.v) IN
  /\ Len(o) = 4 * n
  /\ \A i \in 1..n : LET p == Octets(o, order, i) w == s.values.v[i] IN
                     IF QF32Of(w) = "nan" THEN QF32Of(QU(p, 0, 4)) = "nan" ELSE p = QOctets(w, 4)

\* --- verdict ------------------------------------------------------------------
Failed(r) == r.rc > 0 /\ r.rc # 101 /\ r.err /\ ~r.panic
NeverBad(r) == r.rc >= 0 /\ r.rc # 101 /\ ~r.panic
Shows(c) ==
  LET q == c.req lib == c.lib g == c.run.lines IN
  CASE q.cmd = "info" -> SameLines(InfoLines(lib), g)
    [] q.cmd = "list" -> SameLines(IF q.flags = <<>> THEN ListLines(lib) ELSE DumpLines(lib), g)
    [] q.cmd = "inspect" -> SameLines(InspectLines(lib, q.flags), g)
    [] q.cmd = "decode" ->
         LET s == SubsWith(lib, Index(q.index))[1] IN
         IF q.out = "text" THEN PointsAre(s, g) ELSE c.run.written /\ OctetsAre(s, c.run.octets, q.out) /\ g = <<>>
\* coordinates and values that do not pair up are not judged
Unpaired(c) ==
  /\ Usable(c.lib) /\ c.req.cmd = "decode" /\ c.req.out = "text" /\ SubsWith(c.lib, Index(c.req.index)) # <<>>
  /\ LET s == SubsWith(c.lib, Index(c.req.index))[1] IN s.latlons.k = "ok" /\ s.values.k = "ok" /\ Len(s.latlons.v) # Len(s.values.v)
Is(c) == IF Unpaired(c) THEN "any" ELSE Outcome(c.lib, c.req)
Ok(c) == CASE Is(c) = "fail" -> Failed(c.run)
           [] Is(c) = "ok" -> c.run.rc = 0 /\ ~c.run.panic /\ Shows(c)
           [] Is(c) = "any" -> NeverBad(c.run)
Want(c) == [is |-> Is(c), lines |->
  IF Is(c) # "ok" THEN <<>> ELSE
  CASE c.req.cmd = "info" -> InfoLines(c.lib) [] c.req.cmd = "list" -> (IF c.req.flags = <<>> THEN ListLines(c.lib) ELSE DumpLines(c.lib))
    [] c.req.cmd = "inspect" -> InspectLines(c.lib, c.req.flags) [] OTHER -> <<>>]

VARIABLES l, seen
Init == l = 1 /\ seen = [k \in {"ok", "fail", "any"} |-> 0]
Next ==
  \/ /\ l <= Len(Cases)
     /\ IF Ok(Cases[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> Want(Cases[l])]))
     /\ l' = l + 1
     /\ seen' = [seen EXCEPT ![Is(Cases[l])] = @ + 1]
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases), seen |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
===============================================================================
