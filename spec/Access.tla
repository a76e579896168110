------------------------------- MODULE Access -------------------------------
(* A client works with the submessages of one open file.  Submessages share the *)
(* file's reader, whose position each access moves; decoders keep copies of     *)
(* what they were set up from.                                                  *)
(*                                                                              *)
(* Operations <<what, k>>:                                                      *)
(*   meta grid decode partial   look at submessage k                            *)
(*   hold                       set up a decoder of k and keep it               *)
(*   draw                       all values of the decoder set up by the k-th    *)
(*                              hold                                            *)
(*   keep                       keep submessage k itself                        *)
(*   kmeta kgrid                look at the k-th kept one                        *)
(*   kdecode                    decode it, which uses it up                     *)
(*   walk collect               go through all of them                          *)
(* held: per hold the submessage, or none if it failed; kept: likewise.         *)
EXTENDS Integers, Sequences

None == 0
Client0 == [held |-> <<>>, kept |-> <<>>]

Looks == {"meta", "grid", "decode", "partial"}
\* what is looked at: <<kind of observation, submessage or None>>
Target(c, o) ==
  CASE o[1] \in Looks -> <<o[1], o[2]>>
    [] o[1] = "hold" -> <<"hold", o[2]>>
    [] o[1] = "draw" -> <<"decode", c.held[o[2]]>>
    [] o[1] = "kmeta" -> <<"meta", c.kept[o[2]]>>
    [] o[1] = "kgrid" -> <<"grid", c.kept[o[2]]>>
    [] o[1] = "kdecode" -> <<"decode", c.kept[o[2]]>>
    [] o[1] \in {"walk", "collect"} -> <<"walk", 1>>
    [] o[1] = "keep" -> <<"keep", o[2]>>

\* ok: the operation succeeded
After(c, o, ok) ==
  CASE o[1] = "hold" -> [c EXCEPT !.held = Append(@, IF ok THEN o[2] ELSE None)]
    [] o[1] = "keep" -> [c EXCEPT !.kept = Append(@, o[2])]
    [] o[1] = "kdecode" -> [c EXCEPT !.kept[o[2]] = None]
    [] OTHER -> c

\* operations that read
Reads(o) == o[1] \in {"decode", "partial", "hold", "kdecode"}
=============================================================================
