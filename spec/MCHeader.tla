------------------------------- MODULE MCHeader -------------------------------
(* Sections grown octet by octet: every length, and every single octet marked.   *)
(* Checks that fields appear in their order as a section grows and never change  *)
(* afterwards, and that no octet belongs to two fields; emits every section with *)
(* what it means.                                                                *)
EXTENDS Header, TLC, Json

CONSTANTS Unsupported, MaxProd, Mark
VARIABLES kind, tmpl, p, mark, from
vars == <<kind, tmpl, p, mark, from>>

Full(k, t) == CASE k = 1 -> 18 [] k = 3 -> (IF GridWhole(t) = 0 THEN 30 ELSE GridWhole(t) + 1) [] k = 4 -> MaxProd [] OTHER -> 8
\* an octet of the section: the template number, the mark, or (unmarked sections) all different
Content(k, t, i, m) ==
  CASE k = 3 /\ i = 7 -> t \div 256 [] k = 3 /\ i = 8 -> t % 256
    [] k = 4 /\ i = 2 -> t \div 256 [] k = 4 /\ i = 3 -> t % 256
    [] k = 5 /\ i = 4 -> t \div 256 [] k = 5 /\ i = 5 -> t % 256
    [] OTHER -> IF m = -1 THEN (i * 5 + 3) % 256 ELSE IF i = m THEN Mark ELSE 0
Init ==
  /\ \E kt \in ({1} \X {0}) \cup ({3} \X ({0, 20, 30, 40} \cup Unsupported)) \cup ({4} \X (Supported \cup Unsupported)) \cup ({5} \X {0, 41, 259}) :
       kind = kt[1] /\ tmpl = kt[2]
  /\ mark = -1 /\ p = <<>> /\ from = 0
Grow == mark = -1 /\ Len(p) < Full(kind, tmpl) /\ p' = Append(p, Content(kind, tmpl, Len(p), -1)) /\ UNCHANGED <<kind, tmpl, mark, from>>
\* the grown section with one octet marked
DoMark == mark = -1 /\ Len(p) = Full(kind, tmpl) - (IF kind = 3 /\ GridWhole(tmpl) > 0 THEN 1 ELSE 0)
          /\ \E m \in 0..Len(p)-1 :
             /\ mark' = m /\ p' = [i \in 1..Len(p) |-> Content(kind, tmpl, i - 1, m)]
          /\ UNCHANGED <<kind, tmpl, from>>
Next == Grow \/ DoMark
Spec == Init /\ [][Next]_vars

Readable == Len(p) >= Least(kind)
\* the fields as a sequence, absent or 0 ones left out
Present(s) == {i \in 1..Len(s) : s[i]}
Count(p2) ==
  LET zw(w) == w = <<0, 0>>  zs(s) == s = <<0, 0, 0>>  d == Prod(p2) IN
  CASE kind = 4 ->
         Cardinality(Present(<<d.ncoord # 0, d.cat \notin {<<>>, <<0>>}, d.num \notin {<<>>, <<0>>}, d.gen \notin {<<>>, <<0>>},
           d.ft # <<>> /\ d.ft[1] # 0, d.ft # <<>> /\ ~zw(d.ft[2]),
           d.fs # <<>> /\ d.fs[1][1] # 0, d.fs # <<>> /\ d.fs[1][2] # 0, d.fs # <<>> /\ ~zs(d.fs[1][3]),
           d.fs # <<>> /\ d.fs[2][1] # 0, d.fs # <<>> /\ d.fs[2][2] # 0, d.fs # <<>> /\ ~zs(d.fs[2][3])>>))
    [] kind = 3 /\ GridIs(p2) = "ok" ->
         LET g == GridFields(p2) IN
         Cardinality({i \in 1..Len(g.u) : ~zw(g.u[i])}) + Cardinality({i \in 1..Len(g.s) : ~zs(g.s[i])})
         + Cardinality({i \in 1..Len(g.o) : g.o[i] # 0}) + (IF zw(GridNum(p2)) THEN 0 ELSE 1)
    [] kind = 1 ->
         LET i == Ident(p2) t == TimeOf(p2) IN
         Cardinality(Present(<<i.centre # 0, i.sub # 0, i.master # 0, i.local # 0, i.sig # 0, i.status # 0, i.type # 0>>))
         + Cardinality({k \in 1..6 : t[k] # 0})
    [] OTHER -> 0
Disjoint == mark >= 0 => Count(p) <= 1
\* what has been read stays as the section grows; fields do not vanish
Stable == [][mark' = -1 /\ kind = 4 /\ Readable =>
              LET a == Prod(p) b == Prod(p') keep(x, y) == x = <<>> \/ x = y IN
              keep(a.cat, b.cat) /\ keep(a.num, b.num) /\ keep(a.gen, b.gen) /\ keep(a.ft, b.ft) /\ keep(a.fs, b.fs)]_vars
\* everything of a supported template is there in the end
Complete == kind = 4 /\ Len(p) = Full(4, tmpl) /\ tmpl \in Supported =>
   /\ Cat(p) # <<>> /\ Num(p) # <<>> /\ (GenAt(tmpl) >= 0 <=> Gen(p) # <<>>)
   /\ (UnitAt(tmpl) >= 0 <=> Forecast(p) # <<>>) /\ (SurfAt(tmpl) >= 0 <=> Surfaces(p) # <<>>)

Means == IF ~Readable THEN [k |-> "err"]
  ELSE CASE kind = 1 -> [k |-> "ok", ident |-> Ident(p), time |-> TimeOf(p), timeis |-> TimeIs(TimeOf(p))]
         [] kind = 3 -> [k |-> "ok", num |-> GridNum(p), tmpl |-> GridTmpl(p), is |-> GridIs(p),
                         def |-> IF GridIs(p) = "ok" THEN GridFields(p) ELSE [t |-> 0]]
         [] kind = 4 -> [k |-> "ok", prod |-> Prod(p)]
         [] OTHER -> [k |-> "ok", repr |-> Repr(p)]
Emit == PrintT("@@" \o ToJson([kind |-> kind, p |-> p, means |-> Means]))
===============================================================================
