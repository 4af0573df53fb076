----------------------------- MODULE Trace_Struct -----------------------------
EXTENDS Struct, TraceBase
OutType(o) == IF o.k = "arr" THEN TypeOf(o.n) ELSE <<"unk">>
Same(e, want) == IF Outcome(e.out) # want THEN Reject(e, want) ELSE TRUE
SameT(e, want, T) == IF Outcome(e.out) # want THEN Reject(e, want)
                     ELSE IF e.out.k = "arr" /\ OutType(e.out) # T THEN Reject(e, T) ELSE TRUE
Whole(v) == IF HasErr(v) THEN Err ELSE v
Walks == {"num", "local_index", "pad_none", "firsts", "is_none", "combinations"}
Check(e) ==
  IF ~Valid(e.a) THEN Reject(e, "input") ELSE
  LET T == TypeOf(e.a)
      vs == TLCEval(Denote(e.a))
      k == Axis(T, e.axis)
  IN  CASE e.op = "num" /\ k = 0 /\ Outcome(e.out) # Num(Len(vs)) /\ Strip(T)[1] = "rec"
             -> Same(e, Row(T, Rep(Len(T[5]), Num(Len(vs)))))
        [] e.op \in Walks -> IF k < 0 \/ TooDeep(T, k) THEN Same(e, Err) ELSE Same(e, Whole(Walk(e, T, vs, k)))
        [] e.op = "sort" -> IF k < 0 \/ TooDeep(T, k) THEN Same(e, Err)
                            ELSE Same(e, Walk([op |-> "sort", arg |-> e.arg, asc |-> e.asc, drop |-> k = 0], T, vs, k))
        [] e.op = "flatten" -> IF k < 0 THEN Same(e, Err)
                               ELSE IF k = 0 THEN Same(e, ListOp([op |-> "dropnone"], T, vs))
                               ELSE IF TooDeep(T, k) \/ RecAt(T, k - 1) THEN Same(e, Err)
                               ELSE Same(e, Whole(Walk(e, T, vs, k - 1)))
        [] e.op = "flatten_all" -> Same(e, L(ColLeafs(T, vs)))
        [] e.op = "unflatten" -> IF Has(e, "n") THEN (IF e.n = 0 THEN TRUE ELSE
                                    Same(e, IF e.n > Len(vs) THEN Err ELSE L(Tab(Len(vs) \div e.n, LAMBDA i : L(SubSeq(vs, (i - 1) * e.n + 1, i * e.n))))))
                                 ELSE IF k = 0 THEN Same(e, Unflatten0(vs, Denote(e.counts)))
                                 ELSE Same(e, Whole(Unflatten1(vs, Denote(e.counts))))
        [] e.op = "run_lengths" -> Same(e, RunLengths(T, vs))
        [] e.op = "to_regular" -> IF k < 0 \/ (k = 0 /\ e.axis < 0) THEN Same(e, Err) ELSE IF k = 0 THEN SameT(e, L(vs), T)
                                  ELSE LET n == SameLen(T, vs, k, -1)
                                       IN  IF n = -2 THEN Same(e, Err) ELSE SameT(e, L(vs), IF n = -1 /\ RegAt(T, k) THEN T ELSE RetypeAt(T, k, Max2(n, 0)))
        [] e.op = "from_regular" -> IF k < 0 \/ (k = 0 /\ e.axis < 0) THEN Same(e, Err) ELSE IF k = 0 THEN SameT(e, L(vs), T) ELSE SameT(e, L(vs), RetypeAt(T, k, -1))
        [] e.op = "packed" -> IF e.out.k = "arr" /\ ~Packed(e.out.n) THEN Reject(e, "packed") ELSE SameT(e, L(vs), T)
        [] e.op = "singletons" -> Same(e, L(Map(vs, LAMBDA v : Singles(T, v))))
        [] e.op = "fill_none" -> LET want == BoolAsNum(MapLeaf(e, L(vs))) IN
                                 IF BoolAsNum(Outcome(e.out)) # want THEN Reject(e, want)
                                 ELSE IF AnyOpt(OutType(e.out)) THEN Reject(e, "option type left over") ELSE TRUE
        [] e.op = "mask" -> Same(e, Whole(MaskBy(L(vs), L(Denote(e.m)), e.vw)))
        [] e.op = "copy" -> SameT(e, L(vs), T)
        [] e.op \in {"full_like", "nan_to_num"} /\ ~Has(e, "dt") -> SameT(e, MapLeaf(e, L(vs)), T)
        [] e.op \in {"full_like", "bool", "int", "float"} ->
             IF e.op = "full_like" /\ e.dt = "bool" THEN SameT(e, MapLeaf([op |-> "bool"], MapLeaf(e, L(vs))), SetLeaf(T, e.dt))
             ELSE IF e.op = "full_like" THEN SameT(e, BoolAsNum(MapLeaf(e, L(vs))), SetLeaf(T, e.dt))
             ELSE SameT(e, MapLeaf(e, L(vs)), SetLeaf(T, e.dt))
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
