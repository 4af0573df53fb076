------------------------------ MODULE Trace_View ------------------------------
EXTENDS Views, TraceBase
Check(e) ==
  IF ~Valid(e.a) THEN Reject(e, "input") ELSE
  LET w == Reach(<<"l", TLCEval(Denote(e.a))>>, e.steps, 1)
      want == IF w = VErr THEN Err ELSE w
  IN  IF Outcome(e.out) = want THEN TRUE ELSE Reject(e, want)
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
