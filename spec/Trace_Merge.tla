----------------------------- MODULE Trace_Merge ------------------------------
EXTENDS Merge, TraceBase
Whole(v) == IF HasErr(v) THEN Err ELSE v
V(x) == IF x.k = "sc" THEN x.v ELSE L(Denote(x.n))
(* the fields of a record in no particular order *)
RECURSIVE Unordered(_)
Unordered(v) == CASE v[1] = "l" -> <<"l", Map(v[2], Unordered)>>
                  [] v[1] = "t" -> <<"t", Map(v[2], Unordered)>>
                  [] v[1] = "r" -> <<"r", {<<v[2][i], Unordered(v[3][i])>> : i \in 1..Len(v[2])}>>
                  [] OTHER -> v
(* numbers and booleans merge into numbers; records with the same fields merge into the first's order *)
Loose(e, want) == IF Unordered(BoolAsNum(Outcome(e.out))) # Unordered(BoolAsNum(want)) THEN Reject(e, want) ELSE TRUE
Same(e, want) == IF Outcome(e.out) # want THEN Reject(e, want) ELSE TRUE
Check(e) ==
  IF \E i \in 1..Len(e.xs) : e.xs[i].k = "arr" /\ ~Valid(e.xs[i].n) THEN Reject(e, "input") ELSE
  LET vs == Map(e.xs, V)
  IN  CASE e.op = "concatenate" ->
             Loose(e, Whole(ConcatAt(vs, e.axis)))
        [] e.op = "concat_same" ->
             LET T == TypeOf(e.xs[1].n) IN
             IF Outcome(e.out) # Whole(ConcatAt(vs, 0)) THEN Reject(e, Whole(ConcatAt(vs, 0)))
             ELSE IF ~AnyReg(T) /\ TypeOf(e.out.n) # T THEN Reject(e, T) ELSE TRUE
        [] e.op = "where" -> Loose(e, Whole(WhereAt(vs[1], vs[2], vs[3])))
        [] e.op = "zip" -> Same(e, Whole(ZipAt(e.keys, Map(e.xs, LAMBDA x : IF x.k = "sc" THEN <<"prim", "", "">> ELSE <<"list", "", TypeOf(x.n)>>), vs, e.depth)))
        [] e.op = "unzip" -> LET want == Tab(Len(RecT(TypeOf(e.xs[1].n))[5]), LAMBDA p : FieldOf(vs[1], p)) IN
                             IF Map(e.out.outs, Outcome) # want THEN Reject(e, want) ELSE TRUE
        [] e.op = "with_field" -> Same(e, Whole(WithField(vs[1], vs[2], IF e.key = "" THEN 0 ELSE IndexIn(RecT(TypeOf(e.xs[1].n))[4], e.key), e.key)))
        [] e.op = "with_name" -> IF Outcome(e.out) # vs[1] THEN Reject(e, vs[1])
                                 ELSE IF TypeOf(e.out.n) # Rename(TypeOf(e.xs[1].n), e.key) THEN Reject(e, "name") ELSE TRUE
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
