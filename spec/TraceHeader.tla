------------------------------ MODULE TraceHeader ------------------------------
(* What the real code says about headers, held against Header.  Records:         *)
(*  t = "payload": a section given directly (kind, p) and what was read;         *)
(*  t = "meta":    the section payloads of one field of a file and everything    *)
(*                 the submessage says; look names the parts to judge;           *)
(*  t = "surface": a fixed surface (octets s) and its value and description;     *)
(*  t = "templates": the <<section, template>> pairs of a file and the list;     *)
(*  t = "lookup":  a table's name and codes looked up in it;                     *)
(*  t = "time":    a forecast time and its texts;                                *)
(*  t = "named":   the parameters of discipline d identical to a named code.     *)
(* TABLES holds the code tables: name -> rows <<first, last, text>>, in which    *)
(* the text of a placeholder row is "".                                          *)
EXTENDS Header, Rat, TLC, Json, IOUtils, SequencesExt

Cases == ndJsonDeserialize(IOEnv.TRACE)
Tables == JsonDeserialize(IOEnv.TABLES)

Dec(w) == QAdd(QMul(QInt(w[1]), "65536"), QInt(w[2]))
SDec(s) == IF s[1] = 1 THEN QNeg(Dec(<<s[2], s[3]>>)) ELSE Dec(<<s[2], s[3]>>)

---------------------------------------------------------------------------
\* a text looked up: <<"text", s>> or <<"none", code>>; rows that only reserve a
\* code may do either, with an empty text
Row(tb, k) == {i \in 1..Len(Tables[tb]) : Tables[tb][i][1] <= k /\ k <= Tables[tb][i][2]}
LookOk(tb, k, o) ==
  IF tb \notin DOMAIN Tables \/ Row(tb, k) = {} THEN o = <<"none", QInt(k)>>
  ELSE LET x == Tables[tb][CHOOSE i \in Row(tb, k) : TRUE][3] IN
       IF x = "" THEN o \in {<<"text", "">>, <<"none", QInt(k)>>} ELSE o = <<"text", x>>

Sub1(t, d) == t \o "." \o QInt(d)
UnitName(u) == CASE u = 0 -> "Minute" [] u = 1 -> "Hour" [] u = 2 -> "Day" [] u = 3 -> "Month" [] u = 4 -> "Year" [] u = 5 -> "Decade"
                 [] u = 6 -> "Normal" [] u = 7 -> "Century" [] u = 10 -> "ThreeHours" [] u = 11 -> "SixHours" [] u = 12 -> "TwelveHours"
                 [] u = 13 -> "Second" [] u = 255 -> "Missing" [] OTHER -> "code " \o QInt(u)
UnitShort(u) == CASE u = 0 -> "m" [] u = 1 -> "h" [] u = 2 -> "D" [] u = 3 -> "M" [] u = 4 -> "Y" [] u = 5 -> "10Y"
                 [] u = 6 -> "30Y" [] u = 7 -> "C" [] u = 10 -> "3h" [] u = 11 -> "6h" [] u = 12 -> "12h"
                 [] u = 13 -> "s" [] u = 255 -> "" [] OTHER -> "unit: " \o QInt(u)

AllOnes(p, o, n) == \A i \in o..o+n-1 : O(p, i) = 255
SurfValue(s) == QMul(SDec(S32(s, 2)), QPow("10", -S8(O(s, 1))))
Close(a, b) == QLe(QAbs(QSub(a, b)), QMul(QMax(QAbs(a), QAbs(b)), "1/1099511627776"))
D(x) == QF64Of(QAdd(QMul(x[1], "4294967296"), x[2]))
FactorText(s) == IF O(s, 1) = 255 THEN "Missing" ELSE QInt(S8(O(s, 1)))
ValueText(s) == IF AllOnes(s, 2, 4) THEN "Missing" ELSE SDec(S32(s, 2))

---------------------------------------------------------------------------
TimeOk(p, o) ==
  LET w == TimeIs(TimeOf(p)) IN
  CASE w = "ok" -> o.k = "ok" /\ o.t = TimeOf(p) [] w = "err" -> o.k = "err" [] OTHER -> o.k \in {"ok", "err"}
IdentOk(p, o) == o.f = Ident(p) /\ TimeOk(p, o.time)
GridOk(p, o) ==
  /\ o.num = GridNum(p) /\ o.tmpl = GridTmpl(p)
  /\ CASE GridIs(p) = "ok" -> o.def.k = "ok" /\ o.fields = GridFields(p)
       [] GridIs(p) = "err" -> o.def.k = "err" [] OTHER -> o.def.k \in {"ok", "err"}

PayloadCase(c) ==
  IF Len(c.p) < Least(c.kind) THEN c.res.k = "err"
  ELSE /\ c.res.k = "ok" /\ c.payload = c.p
       /\ CASE c.kind = 1 -> IdentOk(c.p, c.ident) [] c.kind = 3 -> GridOk(c.p, c.grid)
            [] c.kind = 4 -> c.prod = Prod(c.p) [] OTHER -> c.repr = Repr(c.p)

\* named parameters of the NCEP table: discipline, category, number
Ncep(d, a, n) == CASE <<d, a, n>> = <<0, 3, 0>> -> {"PRES"} [] <<d, a, n>> = <<0, 3, 1>> -> {"PRMSL"} [] <<d, a, n>> = <<0, 3, 5>> -> {"HGT"} [] OTHER -> {}

MetaCase(c) ==
  LET look(x) == \E i \in 1..Len(c.look) : c.look[i] = x
      s == c.s   \* s1, s2 (<<>> if there is none, <<payload>>), s3, s4, s5, ind, disc, total
      pd == Prod(s.s4) id == Ident(s.s1)
      some == pd.cat # <<>> /\ pd.num # <<>>
      text(i, tb, k) == LookOk(tb, k, c.text[i])
      plain(i, x) == c.text[i] = <<"text", x>>
      surf(i, x) == IF pd.fs = <<>> THEN plain(i, "") /\ plain(i + 1, "") /\ plain(i + 2, "")
                    ELSE LET at == 4 + SurfAt(pd.tmpl) + 6 * x sf == [j \in 1..6 |-> O(s.s4, at + j - 1)] IN
                         text(i, "4.5", sf[1]) /\ plain(i + 1, FactorText(sf)) /\ plain(i + 2, ValueText(sf))
  IN /\ c.opened
     /\ look("header") =>
          /\ c.disc = s.disc /\ c.total = s.total /\ IdentOk(s.s1, c.ident) /\ c.payloads[1] = s.s1 /\ c.local = s.s2
          /\ GridOk(s.s3, c.grid) /\ c.payloads[2] = s.s3 /\ c.repr = Repr(s.s5) /\ c.payloads[4] = s.s5 /\ c.bitmap = s.ind
     /\ look("product") =>
          /\ c.prod = pd /\ c.payloads[3] = s.s4
          /\ IF some THEN c.param = <<s.disc, id.centre, id.master, id.local, pd.cat[1], pd.num[1]>> ELSE c.param = <<>>
     /\ look("texts") =>
          /\ c.codes = <<<<3, GridTmpl(s.s3)>>, <<4, pd.tmpl>>, <<5, Repr(s.s5).tmpl>>>>
          /\ LookOk("3.1", GridTmpl(s.s3), c.tmpltext[1]) /\ LookOk("4.0", pd.tmpl, c.tmpltext[2]) /\ LookOk("5.0", Repr(s.s5).tmpl, c.tmpltext[3])
          /\ IF some THEN LookOk(Sub1(Sub1("4.2", s.disc), pd.cat[1]), pd.num[1], IF c.pdesc = "-" THEN <<"none", QInt(pd.num[1])>> ELSE <<"text", c.pdesc>>)
             ELSE c.pdesc = "absent"
          /\ {c.ncep[i] : i \in 1..Len(c.ncep)} = IF some THEN Ncep(s.disc, pd.cat[1], pd.num[1]) ELSE {}
          \* the description, line by line
          /\ Len(c.text) = 16
          /\ text(1, "3.1", GridTmpl(s.s3)) /\ plain(2, Dec(GridNum(s.s3)))
          /\ text(3, "4.0", pd.tmpl)
          /\ IF pd.cat = <<>> THEN plain(4, "") ELSE text(4, Sub1("4.1", s.disc), pd.cat[1])
          /\ IF ~some THEN plain(5, "") ELSE text(5, Sub1(Sub1("4.2", s.disc), pd.cat[1]), pd.num[1])
          /\ IF pd.gen = <<>> THEN plain(6, "") ELSE text(6, "4.3", pd.gen[1])
          /\ IF pd.ft = <<>> THEN plain(7, "") /\ plain(8, "") ELSE plain(7, Dec(pd.ft[2])) /\ plain(8, UnitName(pd.ft[1]))
          /\ surf(9, 0) /\ surf(12, 1)
          /\ text(15, "5.0", Repr(s.s5).tmpl) /\ plain(16, Dec(Repr(s.s5).num))

SurfaceCase(c) ==
  LET s == c.s IN
  /\ SurfUnit(O(s, 0)) \in {"?", c.unit}
  /\ c.nan = AllOnes(s, 2, 4) /\ c.vnan = c.nan /\ c.snan = (O(s, 1) = 255)
  /\ ~c.nan /\ ~c.snan => Len(c.value) = 2 /\ Close(D(c.value), SurfValue(s))
  /\ LookOk("4.5", O(s, 0), c.text[1]) /\ c.text[2] = <<"text", FactorText(s)>> /\ c.text[3] = <<"text", ValueText(s)>>

\* every category and number of a discipline
NamedCase(c) ==
  LET known == {<<a, n>> \in {3} \X (0..5) : Ncep(c.d, a, n) # {}} IN
  /\ c.res.k = "ok" /\ Len(c.named) = Cardinality(known)
  /\ \A i \in 1..Len(c.named) : LET x == c.named[i] IN
       /\ <<x[1], x[2]>> \in known /\ {x[3]} = Ncep(c.d, x[1], x[2]) /\ x[5] = <<x[3]>>
       /\ x[4] = QInt((c.d * 256 + x[1]) * 256 + x[2])

Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TemplatesCase(c) ==
  /\ c.opened
  /\ {c.list[i] : i \in 1..Len(c.list)} = {c.pairs[i] : i \in 1..Len(c.pairs)}
  /\ \A i \in 1..Len(c.list)-1 : Less(c.list[i], c.list[i + 1])

\* the table is named with the discipline and category asked for, whether it exists or not
LookupCase(c) ==
  \A i \in 1..Len(c.codes) :
    LET d == c.out[i][1] x == c.out[i][2] IN
    /\ LookOk(c.table, c.codes[i], x)
    /\ IF x[1] = "none" THEN d = <<>> ELSE d = <<x[2]>>

TimeCase(c) ==
  /\ c.unit = UnitName(c.u) /\ c.value = Dec(c.v)
  /\ c.display = IF UnitShort(c.u) = "" THEN Dec(c.v) ELSE Dec(c.v) \o " [" \o UnitShort(c.u) \o "]"

Ok(c) == CASE c.t = "payload" -> PayloadCase(c) [] c.t = "meta" -> MetaCase(c) [] c.t = "surface" -> SurfaceCase(c)
           [] c.t = "templates" -> TemplatesCase(c) [] c.t = "lookup" -> LookupCase(c) [] c.t = "time" -> TimeCase(c) [] c.t = "named" -> NamedCase(c)

Want(c) == CASE c.t = "payload" -> (IF Len(c.p) < Least(c.kind) THEN [k |-> "err"] ELSE
                  CASE c.kind = 1 -> [k |-> "ok", ident |-> Ident(c.p), time |-> TimeIs(TimeOf(c.p))]
                    [] c.kind = 3 -> [k |-> GridIs(c.p)] [] c.kind = 4 -> [k |-> "ok", prod |-> Prod(c.p)] [] OTHER -> [k |-> "ok", repr |-> Repr(c.p)])
             [] c.t = "meta" -> [ident |-> Ident(c.s.s1), prod |-> Prod(c.s.s4), grid |-> GridIs(c.s.s3)]
             [] OTHER -> [t |-> c.t]

VARIABLES l, seen
Init == l = 1 /\ seen = [k \in {"payload", "meta", "surface", "templates", "lookup", "time", "named"} |-> 0]
Next ==
  \/ /\ l <= Len(Cases)
     /\ IF Ok(Cases[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> Want(Cases[l])]))
     /\ l' = l + 1
     /\ seen' = [seen EXCEPT ![Cases[l].t] = @ + 1]
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases), seen |-> seen])) /\ l' = l + 1 /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<l, seen>>
=============================================================================
