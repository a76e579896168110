------------------------------ MODULE MCSubIter ------------------------------
(* Every sequence of at most Depth operations on the iterator of a file with n  *)
(* submessages, n in Sizes; each is emitted with its results.                    *)
EXTENDS SubIter, FiniteSets, TLC, Json

CONSTANTS Sizes, Depth, Args, MaxIts, Plain, WithArg   \* the names of operations without and with an argument

VARIABLES n, s, ops, res, got   \* got: per iterator, the elements it yielded by next, in order
vars == <<n, s, ops, res, got>>

Ops == {<<x, 0>> : x \in Plain}
       \cup {<<x, a>> : x \in WithArg, a \in Args}
       \cup {<<"step", a>> : a \in Args \ {0}}
       \cup {<<"use", a>> : a \in 0..(MaxIts - 1)}

Init == n \in Sizes /\ s = Init0 /\ ops = <<>> /\ res = <<>> /\ got = <<<<>>>>
Next ==
  /\ Len(ops) < Depth
  /\ \E o \in Ops :
       /\ o[1] = "clone" => Len(s.its) < MaxIts
       /\ o[1] = "use" => o[2] < Len(s.its) /\ o[2] + 1 # s.cur
       /\ LET r == Apply(n, s, o) IN
          /\ s' = r[1]
          /\ ops' = Append(ops, o)
          /\ res' = Append(res, r[2])
          /\ got' = CASE o[1] = "clone" -> Append(got, got[s.cur])
                      [] o[1] \in {"next", "nth", "skip"} /\ r[2] # <<>> -> [got EXCEPT ![s.cur] = Append(@, r[2][1])]
                      [] OTHER -> got
  /\ UNCHANGED n
  /\ Len(ops') = Depth => PrintT("@@" \o ToJson([n |-> n, ops |-> ops', res |-> res']))
Spec == Init /\ [][Next]_vars

Last(q) == q[Len(q)]
\* what was yielded is strictly ascending, so nothing comes twice
Ascending == \A k \in 1..Len(got) : \A i \in 1..(Len(got[k]) - 1) : got[k][i] < got[k][i + 1]
\* the announced number is the number that next still yields
RECURSIVE Left(_, _)
Left(st, k) == LET r == Apply(n, st, <<"next", 0>>) IN IF r[2] = <<>> THEN k ELSE Left(r[1], k + 1)
HintExact == LET r == Apply(n, s, <<"hint", 0>>) IN r[2][1] = Left(s, 0)
\* at the end: nothing, again and again
EndStays == s.its[s.cur] = n => \A a \in Args : LET r == Apply(n, s, <<"nth", a>>) IN r[2] = <<>> /\ r[1] = s
\* nth is so many nexts
RECURSIVE Nexts(_, _)
Nexts(st, k) == LET r == Apply(n, st, <<"next", 0>>) IN IF k = 0 THEN r ELSE Nexts(r[1], k - 1)
NthIsNexts == \A a \in Args : a <= n + 1 => Apply(n, s, <<"nth", a>>) = Nexts(s, a)
\* dropping and taking k splits what is left; collecting is nexting
Split == \A a \in Args : Apply(n, s, <<"take", a>>)[2] \o Apply(n, s, <<"drop", a>>)[2] = Apply(n, s, <<"collect", 0>>)[2]
RECURSIVE ByNext(_)
ByNext(st) == LET r == Apply(n, st, <<"next", 0>>) IN IF r[2] = <<>> THEN <<>> ELSE r[2] \o ByNext(r[1])
CollectIsNexts == Apply(n, s, <<"collect", 0>>)[2] = ByNext(s)
=============================================================================
