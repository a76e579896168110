------------------------------ MODULE MCAccess ------------------------------
(* Clients of a file at the level of seeks and reads.  File[k] lists the parts  *)
(* <<start, length>> of the file that setting up submessage k reads; a          *)
(* submessage that cannot be decoded has <<>>.  An octet is known by its place. *)
(* A read may be short or fail; a failure leaves the position anywhere.         *)
EXTENDS Access, FiniteSets, TLC, Json

CONSTANTS Subs, Depth, Chunks, MaxFaults, Places, Emit

File == <<<<<<10, 2>>, <<14, 3>>>>, <<<<20, 2>>, <<17, 2>>, <<24, 2>>>>, <<>>, <<<<30, 1>>, <<33, 4>>>>>>

VARIABLES pos, client, job, hist, faults, good
\* job: op, parts still to fetch, whether the seek for the first one is done,
\* octets fetched of it and of the ones before, number of calls
vars == <<pos, client, job, hist, faults, good>>

Idle == [op |-> <<>>]
Octets(p) == [i \in 1..p[2] |-> p[1] + i - 1]
Content(k) == [i \in 1..Len(File[k]) |-> Octets(File[k][i])]

Ops == {<<w, k>> : w \in {"meta", "grid", "decode", "partial", "hold", "keep"}, k \in 1..Subs}
       \cup {<<"draw", k>> : k \in 1..Len(client.held)}
       \cup {<<w, k>> : w \in {"kmeta", "kgrid", "kdecode"}, k \in 1..Len(client.kept)}
       \cup {<<"walk", 1>>, <<"collect", 1>>}

Init == pos = 0 /\ client = Client0 /\ job = Idle /\ hist = <<>> /\ faults = 0 /\ good = TRUE

Done(o, f, ok) ==
  /\ client' = After(client, o, ok)
  /\ hist' = Append(hist, <<o[1], o[2], f>>)
  /\ job' = Idle
  /\ (Emit /\ Len(hist') = Depth) => PrintT("@@" \o ToJson([ops |-> hist']))

Begin ==
  /\ job = Idle /\ Len(hist) < Depth
  /\ \E o \in Ops :
       LET t == Target(client, o) IN
       IF Reads(o) /\ t[2] # None /\ File[t[2]] # <<>>
       THEN /\ job' = [op |-> o, todo |-> File[t[2]], at |-> FALSE, part |-> <<>>, got |-> <<>>, calls |-> 0]
            /\ UNCHANGED <<pos, client, hist, faults, good>>
       ELSE Done(o, 0, ~Reads(o)) /\ UNCHANGED <<pos, faults, good>>

Seek == /\ job # Idle /\ job.todo # <<>> /\ ~job.at
        /\ pos' = job.todo[1][1]
        /\ job' = [job EXCEPT !.at = TRUE, !.calls = @ + 1]
        /\ UNCHANGED <<client, hist, faults, good>>

Read ==
  /\ job # Idle /\ job.todo # <<>> /\ job.at
  /\ LET want == job.todo[1][2] - Len(job.part) IN
     \E n \in Chunks :
       LET m == IF n < want THEN n ELSE want
           part == job.part \o Octets(<<pos, m>>)
       IN /\ n <= want \/ n = 99 \/ n = 1
          /\ pos' = pos + m
          /\ job' = IF m = want
                    THEN [job EXCEPT !.todo = Tail(@), !.at = FALSE, !.part = <<>>, !.got = Append(@, part), !.calls = @ + 1]
                    ELSE [job EXCEPT !.part = part, !.calls = @ + 1]
  /\ UNCHANGED <<client, hist, faults, good>>

Fault ==
  /\ job # Idle /\ job.todo # <<>> /\ faults < MaxFaults
  /\ faults' = faults + 1
  /\ pos' \in Places
  /\ Done(job.op, job.calls + 1, FALSE)
  /\ UNCHANGED good

Finish ==
  /\ job # Idle /\ job.todo = <<>>
  /\ good' = (job.got = Content(Target(client, job.op)[2]))
  /\ Done(job.op, 0, TRUE)
  /\ UNCHANGED <<pos, faults>>

Next == Begin \/ Seek \/ Read \/ Fault \/ Finish
Spec == Init /\ [][Next]_vars

\* what was fetched is what the file holds for that submessage
Independent == good
\* a decoder is held of the submessage it was set up from
HeldRight == \A i \in 1..Len(client.held) :
               LET h == SelectSeq(hist, LAMBDA x : x[1] = "hold") IN
               client.held[i] = IF h[i][3] # 0 \/ File[h[i][2]] = <<>> THEN None ELSE h[i][2]
=============================================================================
