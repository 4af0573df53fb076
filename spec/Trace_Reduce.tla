----------------------------- MODULE Trace_Reduce -----------------------------
EXTENDS Reduce, TraceBase
Q(e, z) == [zero |-> z, op |-> e.op, mask |-> e.mask, keep |-> e.keep, init |-> e.init]
TypeOfOut(o) == IF o.k = "arr" THEN Leaves(TypeOf(o.n)) ELSE <<>>
Means == {"mean", "moment", "var", "std2", "ptp"}
RECURSIVE HasRec(_)
HasRec(T) == LET S == Strip(T) IN S[1] = "rec" \/ (IsListT(S) /\ HasRec(Elt(S)))
(* Known findings C08-outer-short, C08-outer-missing: positions along an outer axis do not count lists that are
   missing, nor (two levels further out) lists that are too short.  There, only where there is a position is judged;
   events recorded for the finding itself (kf) are judged in full. *)
RECURSIVE OptList(_), Blur(_)
OptList(T) == IF T[1] = "opt" THEN IsListT(Strip(T)) \/ OptList(T[2]) ELSE IF T[1] = "cat" THEN OptList(T[3])
              ELSE IF IsListT(T) THEN OptList(Elt(T))
              ELSE IF T[1] = "rec" THEN \E i \in 1..Len(T[5]) : OptList(T[5][i]) ELSE FALSE
Blur(v) == IF v[1] = "l" THEN <<"l", Map(v[2], Blur)>>
           ELSE IF v[1] \in {"r", "t"} THEN <<v[1]>> \o (IF v[1] = "r" THEN <<v[2], Map(v[3], Blur)>> ELSE <<Map(v[2], Blur)>>)
           ELSE IF v[1] = "n" /\ v[2] > 0 THEN <<"n", 0>> ELSE v
Outer(e, T) == LET k == IF e.axis < 0 THEN -e.axis ELSE MaxDepth(T) + 1 - e.axis
               IN  k >= 3
Weak(e, T) == e.op \in {"argmin", "argmax"} /\ ~Has(e, "kf") /\ Has(e, "axis") /\ Outer(e, T)
Check(e) ==
  IF ~Valid(e.a) THEN Reject(e, "input") ELSE
  LET T == TypeOf(e.a)
      vs == IF Has(e, "w") THEN Pair(L(Denote(e.a)), L(Denote(e.w)))[2] ELSE Denote(e.a)
      got0 == IF e.op \in Means THEN e.res ELSE Outcome(e.out)
      got == IF Weak(e, T) THEN Blur(got0) ELSE got0
      W0(z) == IF Has(e, "axis") THEN ReduceAxis(T, vs, Q(e, z), e.axis) ELSE ReduceAll(T, vs, Q(e, z))
      W(z) == LET w0 == W0(z) IN IF Weak(e, T) /\ ~HasErr(w0) THEN Blur(w0) ELSE w0
      w == W(FALSE)
      want == IF HasErr(w) THEN Err ELSE w
      wantT == Map(Leaves(T), LAMBDA dt : ResultDt(e.op, dt))
  IN  IF got # want /\ ~((Flat(L(vs)) = <<>> \/ HasRec(T)) /\ got = W(TRUE)) THEN Reject(e, want)
      ELSE IF e.op \notin Means /\ e.out.k = "arr" /\ TypeOfOut(e.out) # wantT THEN Reject(e, wantT)
      ELSE TRUE
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
