---------------------------- MODULE Trace_Validity ----------------------------
EXTENDS Validity
(* detect: what the library says about a tree of buffers, asked in every way it can be asked *)
(* closure: an operation on sound arrays makes sound arrays, and the library says so         *)
Check(e) ==
  CASE e.op = "detect" -> IF \E k \in 1..Len(e.says) : e.says[k] # e.says[1] THEN Reject(e, "one answer")
                          ELSE IF Broken(e.a) /\ e.says[1] THEN Reject(e, "broken")
                          ELSE IF Sound(e.a) /\ ~e.says[1] THEN Reject(e, "sound") ELSE TRUE
    [] e.op = "closure" -> IF \E k \in 1..Len(e.ins) : Broken(e.ins[k]) THEN TRUE
                           ELSE IF Broken(e.n) THEN Reject(e, "unsound result")
                           ELSE IF Sound(e.n) /\ ~e.says THEN Reject(e, "sound") ELSE TRUE
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
