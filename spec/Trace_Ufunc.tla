----------------------------- MODULE Trace_Ufunc ------------------------------
EXTENDS Broadcast, TraceBase
Input(x) == IF x.k = "sc" THEN [t |-> <<"prim", "", x.dt>>, v |-> x.v, sc |-> TRUE] ELSE Top(x.n)
Opts(left, right, recs, d, fn) == [fn |-> fn, left |-> left, right |-> right, records |-> recs, depth |-> d]
Shown(w) == IF HasErr(w) THEN Err ELSE w
CheckUfunc(e) ==
  LET xs == Map(e.xs, Input)
      got == Outcome(e.out)
      want == Shown(BC(xs, Opts(TRUE, TRUE, FALSE, AnyDepth, <<"ufunc", e.op>>)))
  IN  IF got # want THEN Reject(e, want)
      ELSE IF e.out.k = "arr" /\ \E i \in 1..Len(Leaves(TypeOf(e.out.n))) : Leaves(TypeOf(e.out.n))[i] # e.dt THEN Reject(e, e.dt)
      ELSE TRUE
(* broadcast_arrays: each output has its input's values in the common structure *)
CheckBroadcast(e) ==
  LET xs == Map(e.xs, Input)
      Want(i) == Shown(BC(xs, Opts(e.left, e.right, TRUE, e.depth, <<"pick", i>>)))
      want == Tab(Len(xs), Want)
      got == IF e.out.k = "err" THEN Tab(Len(xs), LAMBDA i : Err) ELSE Map(e.out.outs, Outcome)
      bad == \E i \in 1..Len(xs) : want[i] = Err
  IN  IF bad THEN (IF e.out.k = "err" THEN TRUE ELSE Reject(e, Err))
      ELSE IF got # want THEN Reject(e, want) ELSE TRUE
Check(e) == IF e.op = "broadcast_arrays" THEN CheckBroadcast(e) ELSE CheckUfunc(e)
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
