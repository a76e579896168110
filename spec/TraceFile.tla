------------------------------ MODULE TraceFile ------------------------------
(* Runs of the real reader, one per record, held against Grib2File:             *)
(*   kind "sections": items of a section stream opened at offset start          *)
(*   kind "subs":     items of a submessage stream                              *)
(*   kind "open":     sections and submessage index of the opened file          *)
(* data are the octets; faults is the number of I/O errors that were injected:  *)
(* if there was one, the run may stop short with an error anywhere.             *)
EXTENDS Grib2File, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)

SameSect(w, o) == o.k = w.k /\ (w.k = "sect" => o.num = w.num /\ o.off = w.off /\ o.size = w.size /\ o.b = w.b)

SectionsAs(c, want) ==
  LET n == Len(c.items) IN
  IF c.faults = 0
  THEN n = Len(want) /\ \A i \in 1..n : SameSect(want[i], c.items[i])
  ELSE /\ n <= Len(want) + 1 /\ c.items[n].k = "err"
       /\ \A i \in 1..(n - 1) : want[i].k = "sect" /\ SameSect(want[i], c.items[i])

SectionsOk(c) == SectionsAs(c, Items(c.data, c.start)) \/ SectionsAs(c, ItemsW(c.data, c.start))

\* o: an observed item of a submessage stream, w the specified one, S the sections
SameSub(S, w, o) ==
  /\ o.k = w.k
  /\ w.k = "err" => w.e = "ReadError" \/ (o.e = w.e /\ o.a = w.a)
  /\ w.k = "sub" =>
       /\ o.m = w.m /\ o.s = w.s
       /\ SubSeq(o.parts, 1, 8) = Parts(S, w)
       /\ w.end # 0 => o.parts[9] = EndPart(S, w)

\* after the first error or the end nothing more comes
Stops(items, k) == \A i \in (k + 1)..Len(items) : items[i].k = "end"

SubsAs(c, S) ==
  LET want == SubsOf(S)
      n == Len(want)
  IN IF c.faults = 0
     THEN /\ Len(c.items) >= n
          /\ \A i \in 1..n : SameSub(S, want[i], c.items[i])
          /\ Stops(c.items, n)
     ELSE \E k \in 1..Len(c.items) :
            /\ c.items[k].k = "err" /\ k <= n
            /\ \A i \in 1..(k - 1) : want[i].k = "sub" /\ SameSub(S, want[i], c.items[i])
            /\ Stops(c.items, k)

SubsOk(c) == SubsAs(c, Items(c.data, c.start)) \/ SubsAs(c, ItemsW(c.data, c.start))

OpenOk(c) ==
  LET S == Items(c.data, c.start)
      want == SubsOf(S)
      n == Len(want) - 1
  IN IF c.faults # 0 \/ want[n + 1].k = "err" THEN c.res.k = "err"
     ELSE /\ c.res.k = "ok"
          /\ Len(c.sects) = Len(S) - 1
          /\ \A i \in 1..Len(c.sects) : SameSect(S[i], c.sects[i])
          /\ c.len = n /\ c.empty = (n = 0) /\ Len(c.subs) = n
          /\ \A i \in 1..n :
               LET w == want[i]
                   o == c.subs[i]
               IN /\ o[1] = w.m /\ o[2] = w.s
                  /\ \A j \in 1..8 : o[j + 2] = w.parts[j] - 1
                  /\ w.end # 0 => o[11] = w.end - 1

Ok(c) ==
  CASE c.kind = "sections" -> SectionsOk(c)
    [] c.kind = "subs" -> SubsOk(c)
    [] c.kind = "open" -> OpenOk(c)

Want(c) == IF c.kind = "sections" THEN Items(c.data, c.start) ELSE SubsOf(Items(c.data, c.start))

VARIABLE l
Init == l = 1
Next ==
  \/ /\ l <= Len(Cases)
     /\ IF Ok(Cases[l]) THEN TRUE ELSE PrintT("@@" \o ToJson([bad |-> l, want |-> Want(Cases[l])]))
     /\ l' = l + 1
  \/ /\ l = Len(Cases) + 1 /\ PrintT("@@" \o ToJson([done |-> Len(Cases)])) /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
