---------------------------- MODULE Trace_Combine -----------------------------
EXTENDS Combine, TraceBase
OutType(o) == IF o.k = "arr" THEN TypeOf(o.n) ELSE <<"unk">>
Named(e) == e.out.k # "arr" \/ NameAt(OutType(e.out)) = e.name
Same(e, want) == IF Outcome(e.out) # want THEN Reject(e, want) ELSE TRUE
Check(e) ==
  IF ~AllOf(e.as, Valid) THEN Reject(e, "input") ELSE
  LET Ts == Map(e.as, TypeOf)
      vss == TLCEval(Map(e.as, Denote))
      k == Axis(Ts[1], e.axis)
      r == IF k < 0 \/ AnyOf(Ts, LAMBDA T : TooDeep(T, k)) THEN Err
           ELSE IF e.op = "cartesian" THEN CartAt(e, vss, k)
           ELSE Walk(e, Ts[1], vss[1], k)
      want == IF HasErr(r) THEN Err ELSE r
  IN  IF Outcome(e.out) # want THEN Reject(e, want)
      ELSE IF e.op = "cartesian" /\ e.out.k = "arr" /\ NameAt(OutType(e.out)) # e.name THEN Reject(e, "name") ELSE TRUE
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
