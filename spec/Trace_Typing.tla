----------------------------- MODULE Trace_Typing -----------------------------
EXTENDS Typing, TraceBase
Check(e) ==
  IF ~Valid(e.a) THEN Reject(e, "input") ELSE
  LET want == Norm(ResultType(e, TypeOf(e.a)))
  IN  IF e.out.k \in {"arr", "row"} THEN 
         (LET got == Norm(TypeOf(e.out.n))
          IN  IF /\ \/ got = want
                    \/ Loose(e) /\ NoOpt(got) = NoOpt(want)
                    \/ Unpadded(e) /\ got = Norm(TypeOf(e.a))
                 /\ OptNamed(e.out.n) => OptNamed(e.a)
              THEN TRUE ELSE Reject(e, want))
      ELSE IF e.out.k = "err" THEN Reject(e, want) ELSE TRUE
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
