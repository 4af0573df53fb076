----------------------------- MODULE Trace_Cache ------------------------------
(* Recorded sessions with lazy arrays: after each command how often every root   *)
(* has been generated so far, and the value if the command asked for one.        *)
EXTENDS Lazy, TraceBase
H0(h) == [kind |-> h.kind, names |-> h.names, src |-> h.src, rows |-> h.rows, pin |-> {}, loose |-> FALSE, picked |-> h.kind = "tab"]
RECURSIVE Session(_, _, _, _)
Session(e, s, i, R) ==
  IF i > Len(e.cmds) THEN TRUE
  ELSE LET k == e.cmds[i]
           grown == [r \in 1..Len(R) |-> k.calls[r] - s.calls[r]]
       IN  IF ~Allowed(s, k, R, grown) THEN Reject(e, <<i, k.c, "generated", grown, "needs", Touch(s, k, R), "kept", Kept(s)>>)
           ELSE IF k.c = "fields" /\ k.out # Result(s, k, R) THEN Reject(e, <<i, k.c, Result(s, k, R)>>)
           ELSE IF k.c # "fields" /\ IsValue(s, k) /\ (k.out.k = "err" \/ Outcome(k.out) # Result(s, k, R)) THEN Reject(e, <<i, k.c, Result(s, k, R)>>)
           ELSE IF k.c \in {"type"} /\ k.out.k = "err" THEN Reject(e, <<i, k.c>>)
           ELSE Session(e, TLCEval(After(s, k, R, grown)), i + 1, R)
Check(e) == LET R == Map(e.roots, LAMBDA q : [vals |-> TLCEval(Denote(q.a)), form |-> q.form, cached |-> q.cached])
                n == Len(R)
            IN  Session(e, [kept |-> Rep(n, FALSE), calls |-> Rep(n, 0), hs |-> Map(e.hs, H0)], 1, R)
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
