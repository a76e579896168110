------------------------------ MODULE MCDamage ------------------------------
(* Well-formed files, each cut at every octet and with every length, number,    *)
(* edition and end-marker field overwritten.  What lies before the damage is    *)
(* unharmed, a cut is never taken for success; each damaged file is emitted with *)
(* what must come out of the streams and of opening it.                          *)
EXTENDS Grib2File, TLC, Json

CONSTANTS Which

G == <<71, 82, 73, 66>>
Pad(n) == [i \in 1..n |-> G[((i - 1) % 4) + 1]]
Sec(n, b) == [num |-> n, body |-> b]
Fld(k) == <<Sec(4, Pad(4)), Sec(5, Pad(7)), Sec(6, IF k = 0 THEN <<255>> ELSE <<0, 170, 71>>), Sec(7, Pad(k))>>
M1 == [disc |-> 0, sects |-> <<Sec(1, Pad(16)), Sec(3, Pad(9))>> \o Fld(0)]
M2 == [disc |-> 1, sects |-> <<Sec(1, Pad(17)), Sec(2, Pad(2)), Sec(3, Pad(9))>> \o Fld(5) \o Fld(0)]
M3 == [disc |-> 2, sects |-> <<Sec(1, Pad(16)), Sec(3, Pad(10))>> \o Fld(1) \o <<Sec(2, <<>>), Sec(3, Pad(9))>> \o Fld(6) \o <<Sec(3, Pad(9))>> \o Fld(2)]

Files == <<[gaps |-> <<<<>>, <<>>>>, msgs |-> <<M1>>],
           [gaps |-> <<<<71, 82>>, <<55>>, <<>>>>, msgs |-> <<M2, M1>>],
           [gaps |-> <<<<>>, <<>>, <<0, 0, 0, 5>>>>, msgs |-> <<M1, M3>>],
           [gaps |-> <<<<9>>, Pad(3), <<>>, Pad(3)>>, msgs |-> <<M3, M2, M1>>]>>

\* the fields of a file: offset, size
FieldsOf(t) ==
  UNION {CASE t[i].num = 0 -> {<<t[i].off, 4>>, <<t[i].off + 7, 1>>, <<t[i].off + 8, 8>>}
           [] t[i].num = 8 -> {<<t[i].off, 4>>}
           [] OTHER -> {<<t[i].off, 4>>, <<t[i].off + 4, 1>>} : i \in 1..(Len(t) - 1)}

Overwrite(f, o, s) == [i \in 1..Len(f) |-> IF i > o /\ i <= o + Len(s) THEN s[i - o] ELSE f[i]]

RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1)) * 256 + s[Len(s)]

Old(f, o, n) == SubSeq(f, o + 1, o + n)

\* values a field is overwritten with
NewOf(f, o, n) ==
  IF n = 1 THEN {<<v>> : v \in (0..9) \cup {72, 127, 128, 255}}
  ELSE LET old == Old(f, o, n)
           v == Num(SubSeq(old, n - 1, n))
           low == {Be(w, n) : w \in {0, 1, 3, 4, 5, 6, 15, 16, 17, 20, 21, 255, 256, 65535}
                                    \cup {x \in {v - 5, v - 4, v - 1, v + 1, v + 4, v + 5} : x >= 0}}
       IN low \cup {[old EXCEPT ![1] = 128], [i \in 1..n |-> 255], [i \in 1..n |-> IF i = 1 THEN 127 ELSE 255], G \o SubSeq(old, 5, n)}

\* damaged files: octets, and the offset before which nothing changed
Damages(i) ==
  LET f == EncFile(Files[i])
      t == Tiling(Files[i])
  IN {[d |-> SubSeq(f, 1, k), at |-> k, cut |-> TRUE] : k \in 0..(Len(f) - 1)}
     \cup UNION {{[d |-> Overwrite(f, q[1], s), at |-> q[1], cut |-> FALSE] : s \in NewOf(f, q[1], q[2])} : q \in FieldsOf(t)}

VARIABLES i, orig, dmg    \* orig: the sections and submessages of the undamaged file
vars == <<i, orig, dmg>>
None == [d |-> <<>>, at |-> -1, cut |-> FALSE]
Say(d, a, c) == PrintT("@@" \o ToJson([file |-> i, at |-> a, cut |-> c, data |-> d, items |-> Items(d, 0), itemsw |-> ItemsW(d, 0)]))
Init == /\ i \in Which /\ dmg = None
        /\ orig = LET t == Tiling(Files[i])
                      u == SubsOf(t)
                  IN [sects |-> t, subs |-> u, parts |-> [k \in 1..(Len(u) - 1) |-> Parts(t, u[k])]]
Next == /\ dmg = None
        /\ \E x \in Damages(i) : dmg' = x /\ Say(x.d, x.at, x.cut)
        /\ UNCHANGED <<i, orig>>
Spec == Init /\ [][Next]_vars

Orig == orig.sects
\* submessages of the original, with what follows them, wholly before the damage
Whole ==
  LET out == orig.subs IN
  {k \in 1..(Len(out) - 1) :
     LET last == IF out[k].end # 0 THEN out[k].end ELSE out[k].parts[8] + 1
     IN Orig[last].off + Orig[last].size <= dmg.at}

PrefixKept ==
  dmg # None /\ Whole # {} => \A S \in {Items(dmg.d, 0), ItemsW(dmg.d, 0)} :
    LET want == orig.subs
        got  == SubsOf(S)
    IN \A k \in Whole : k <= Len(got) /\ got[k].k = "sub"
          /\ got[k].m = want[k].m /\ got[k].s = want[k].s
          /\ Parts(S, got[k]) = orig.parts[k]

\* offsets strictly inside a message, its first 16 octets being there
Inside(k) == \E j \in 1..Len(Orig) : /\ Orig[j].k = "sect" /\ Orig[j].num = 0 /\ Orig[j].off + 16 <= k
                                     /\ \E e \in j..Len(Orig) : /\ Orig[e].k = "sect" /\ Orig[e].num = 8
                                                                /\ \A x \in (j + 1)..e : Orig[x].num # 0
                                                                /\ k < Orig[e].off + 4
CutIsError ==
  dmg # None /\ dmg.cut =>
    LET got == SubsOf(Items(dmg.d, 0))
    IN Inside(dmg.at) <=> got[Len(got)].k = "err"
=============================================================================
