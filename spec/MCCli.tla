--------------------------------- MODULE MCCli ---------------------------------
(* The tool's run as a machine: arguments, opening, finding the submessage,      *)
(* setting up the decoder, coordinates, writing.  Every request against every    *)
(* small file; held against Outcome; emitted to be replayed.                     *)
EXTENDS Cli, TLC, Json
CONSTANTS MaxMessages, MaxSubs, MaxTotal
VARIABLES file, req, phase, exit, shown, written
vars == <<file, req, phase, exit, shown, written>>

\* a file: how it opens, and messages <<time ok?, kinds of its submessages>>
Kinds == {"good", "novalues", "nogrid", "badgrid"}
RECURSIVE Subs(_)
Subs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, k) : s \in Subs(n - 1), k \in Kinds}
Msgs == {<<t, s>> : t \in BOOLEAN, s \in UNION {Subs(n) : n \in 1..MaxSubs}}
RECURSIVE Seqs(_)
Seqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(q, m) : q \in Seqs(n - 1), m \in Msgs}
RECURSIVE SubCount(_)
SubCount(q) == IF q = <<>> THEN 0 ELSE Len(q[1][2]) + SubCount(Tail(q))
Files == {<<"ok", q>> : q \in {x \in UNION {Seqs(n) : n \in 1..MaxMessages} : SubCount(x) <= MaxTotal}}
         \cup {<<k, <<>>>> : k \in {"absent", "directory", "junk", "empty", "cut", "broken"}}
NoTime == <<"err", "">>
Lib(f) ==
  LET all == UNION {{<<m - 1, k - 1>> : k \in 1..Len(f[2][m][2])} : m \in 1..Len(f[2])}
      kind(i) == f[2][i[1] + 1][2][i[2] + 1]
      sub(i) == [id |-> i, info |-> [time |-> IF f[2][i[1] + 1][1] THEN <<"ok", "t">> ELSE NoTime],
                 values |-> IF kind(i) = "novalues" THEN [k |-> "err", v |-> <<>>] ELSE [k |-> "ok", v |-> <<"0">>],
                 latlons |-> [k |-> CASE kind(i) = "nogrid" -> "unsupported" [] kind(i) = "badgrid" -> "err" [] OTHER -> "ok"]]
      RECURSIVE Row(_, _)
      Row(m, k) == IF m > Len(f[2]) THEN <<>> ELSE IF k > Len(f[2][m][2]) THEN Row(m + 1, 1) ELSE <<sub(<<m - 1, k - 1>>)>> \o Row(m, k + 1)
  IN [open |-> IF f[1] = "ok" THEN "ok" ELSE IF f[1] = "empty" THEN "ok" ELSE "err", subs |-> Row(1, 1)]

R(c, fl, i, o, t) == [cmd |-> c, flags |-> fl, index |-> i, out |-> o, target |-> t]
\* "0.0" "0.1" "1.0" "2.0" "00.01" "0" "0.0x" "-1.0" "99999999999999999999.0"
Indices == {<<48, 46, 48>>, <<48, 46, 49>>, <<49, 46, 48>>, <<50, 46, 48>>, <<48, 48, 46, 48, 49>>, <<48>>, <<48, 46, 48, 120>>, <<45, 49, 46, 48>>,
            <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 46, 48>>}
Requests ==
  {R("info", <<>>, <<>>, "text", "ok"), R("list", <<>>, <<>>, "text", "ok"), R("list", <<"d">>, <<>>, "text", "ok")}
  \cup {R("inspect", fl, <<>>, "text", "ok") : fl \in {<<>>, <<"s">>, <<"m">>, <<"t">>, <<"s", "m">>, <<"s", "t">>, <<"m", "t">>, <<"t", "m", "s">>}}
  \cup {R("decode", <<>>, i, "text", "ok") : i \in Indices}
  \cup {R("decode", <<>>, i, o, t) : i \in Indices, o \in {"big", "little"}, t \in {"ok", "bad"}}
  \cup {R("decode", <<>>, <<48, 46, 48>>, "both", "ok")}

Init == file \in Files /\ req \in Requests /\ phase = "arguments" /\ exit = -1 /\ shown = FALSE /\ written = FALSE
Fail == phase' = "done" /\ exit' = 1 /\ UNCHANGED <<file, req, shown, written>>
To(p) == phase' = p /\ UNCHANGED <<file, req, exit, shown, written>>
lib == Lib(file)
S == SubsWith(lib, Index(req.index))[1]
Arguments == phase = "arguments" /\ IF req.out = "both" THEN Fail ELSE To("opening")
Opening == phase = "opening" /\ IF lib.open # "ok" \/ lib.subs = <<>> THEN Fail ELSE To(IF req.cmd = "decode" THEN "finding" ELSE "showing")
Finding == phase = "finding" /\ IF Index(req.index) = <<>> \/ SubsWith(lib, Index(req.index)) = <<>> THEN Fail ELSE To("decoding")
Decoding == phase = "decoding" /\ IF S.values.k # "ok" THEN Fail ELSE To(IF req.out = "text" THEN "locating" ELSE "writing")
Locating == phase = "locating" /\ IF S.latlons.k = "err" THEN Fail ELSE To("showing")
Showing == /\ phase = "showing"
           /\ IF req.cmd = "info" /\ \E i \in 1..Len(Firsts(lib)) : Firsts(lib)[i].info.time[1] # "ok"
              THEN phase' = "done" /\ exit' = 1 /\ shown' \in {Firsts(lib)[1].info.time[1] = "ok"} /\ UNCHANGED <<file, req, written>>
              ELSE phase' = "done" /\ exit' = 0 /\ shown' = TRUE /\ UNCHANGED <<file, req, written>>
Writing == /\ phase = "writing"
           /\ IF req.target # "ok" THEN Fail ELSE phase' = "done" /\ exit' = 0 /\ written' = TRUE /\ UNCHANGED <<file, req, shown>>
Next == Arguments \/ Opening \/ Finding \/ Decoding \/ Locating \/ Showing \/ Writing
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Same == phase = "done" => (exit = 0) = (Outcome(lib, req) = "ok") /\ Outcome(lib, req) # "any"
\* what a request asks for is either there or an error says it is not
Complete == exit = 0 => IF req.cmd = "decode" /\ req.out # "text" THEN written /\ ~shown ELSE shown /\ ~written
Clean == exit = 1 => ~written /\ (shown => req.cmd = "info")
Ends == <>(phase = "done")
Emit == phase = "done" => PrintT("@@" \o ToJson([file |-> file, req |-> req, exit |-> exit]))
===============================================================================
