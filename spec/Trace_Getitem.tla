---------------------------- MODULE Trace_Getitem ----------------------------
EXTENDS Getitem, TraceBase
Check(e) ==
  IF ~Valid(e.a) THEN Reject(e, "input") ELSE
  LET got == Outcome(e.out)
      w == Slice(TypeOf(e.a), Denote(e.a), e.items, got)
      want == IF HasErr(w) THEN Err ELSE w
  IN  IF got = want THEN TRUE ELSE Reject(e, want)
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
