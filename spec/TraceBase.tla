------------------------------ MODULE TraceBase -------------------------------
(* The recorded events of one run, dealt to NC independent readers so that TLC   *)
(* can validate them with all its workers.                                       *)
EXTENDS Types, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NC == 64
VARIABLES c, l
TraceInit == c \in 1..NC /\ l = 0
Idx == l * NC + c
(* A rejected event is reported and reading goes on: the rest is still judged.   *)
Reject(e, want) == PrintT(<<"FAIL", e.id, ToString(want)>>)
Consume(Check(_)) == /\ Idx <= Len(Trace)
                     /\ Check(Trace[Idx])
                     /\ l' = l + 1
                     /\ c' = c
==============================================================================
