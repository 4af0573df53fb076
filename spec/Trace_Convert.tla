---------------------------- MODULE Trace_Convert -----------------------------
EXTENDS Convert, TraceBase
Same(e, want) == IF Outcome(e.out) # want THEN Reject(e, want) ELSE TRUE
(* the rows (ranges) and fields that were asked for                              *)
Cols(e, v) == IF ~Has(e, "cols") THEN v
              ELSE LET ks == SelectSeq(v[2], LAMBDA k : k \in ToSet(e.cols)) IN <<"r", ks, Map(ks, LAMBDA k : v[3][IndexIn(v[2], k)])>>
Picked(e, v) == LET rows == IF Has(e, "rows") THEN FoldLeft(\o, <<>>, Map(e.rows, LAMBDA r : SubSeq(v[2], r[1] + 1, r[2]))) ELSE v[2]
                IN  L(Map(rows, LAMBDA r : Cols(e, r)))
Check(e) ==
  IF ~Valid(e.a) THEN Reject(e, "input") ELSE
  LET T == TypeOf(e.a)
      vs == TLCEval(Denote(e.a))
  IN  CASE e.op = "values" -> Same(e, L(vs))
        [] e.op = "identity" -> IF Outcome(e.out) # L(vs) THEN Reject(e, L(vs))
                                ELSE IF TypeOf(e.out.n) # T THEN Reject(e, T)
                                ELSE IF e.skel /\ Skeleton(e.out.n) # Skeleton(e.a) THEN Reject(e, Skeleton(e.a)) ELSE TRUE
        [] e.op = "type" -> IF e.out.k # "type" THEN Reject(e, T) ELSE IF e.out.t # T THEN Reject(e, T) ELSE TRUE
        [] e.op = "row" -> Same(e, vs[e.at + 1])
        [] e.op = "plain" -> Same(e, Picked(e, NoTuples(L(vs))))
        [] e.op = "json" -> Same(e, Named(e, NoTuples(L(vs))))
        [] e.op = "numpy" -> Same(e, ToNumpy(T, vs))
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
