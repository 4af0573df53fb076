---------------------------- MODULE Trace_Builder ----------------------------
(* A session is a sequence of commands and observations; the builder's state is  *)
(* carried from one to the next.  st: b builder, snaps the values every snapshot *)
(* had when it was taken, bad "" or what was wrong first.                         *)
EXTENDS ArrayBuilder, TraceBase
Vals(n) == IF Valid(n) THEN L(Denote(n)) ELSE <<"invalid">>
Say(s, w) == [s EXCEPT !.bad = ToString(w)]
Observe(s, x) ==
  CASE x.k = "len" -> IF x.n = Len(s.b.vals) THEN s ELSE Say(s, <<"len", Len(s.b.vals)>>)
    [] x.k = "snap" ->
         LET want == L(Snapshot(s.b)) IN
         IF Vals(x.n) # want THEN Say(s, want)
         ELSE IF ~s.untyped /\ TypeOf(x.n) # ShapeType(s.b.shape) THEN Say(s, <<"type", ShapeType(s.b.shape)>>)
         ELSE [s EXCEPT !.snaps = Append(@, want)]
    [] x.k = "again" -> IF Vals(x.n) = s.snaps[x.i] THEN s ELSE Say(s, <<"snapshot", x.i, s.snaps[x.i]>>)
    [] OTHER ->
         LET b2 == Step(s.b, x) IN
         IF IsFail(b2) # x.err THEN Say(s, IF IsFail(b2) THEN "error" ELSE "no error")
         ELSE IF IsFail(b2) THEN s
         ELSE [s EXCEPT !.b = b2, !.untyped = @ \/ x.k \in {"app", "clear"}]
One(s, x) == IF s.bad # "" THEN s ELSE LET r == Observe(s, x) IN IF r.bad = "" THEN r ELSE [r EXCEPT !.bad = ToString(x.k) \o " " \o @]
Check(e) ==
  LET s == FoldLeft(One, [b |-> Builder0, snaps |-> <<>>, bad |-> "", untyped |-> FALSE], e.cmds)
  IN  IF s.bad = "" THEN TRUE ELSE Reject(e, s.bad)
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
=============================================================================
