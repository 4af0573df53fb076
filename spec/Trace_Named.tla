----------------------------- MODULE Trace_Named ------------------------------
EXTENDS Named, TraceBase
PTop(nd) == LET vs == Denote(nd) IN In(<<"reg", "", Len(vs), Plain(TypeOf(nd))>>, L(vs))
Input(x) == IF x.k = "sc" THEN [t |-> x.t, v |-> x.v, sc |-> TRUE] ELSE PTop(x.n)
Opts(fn) == [fn |-> fn, left |-> TRUE, right |-> TRUE, records |-> FALSE, depth |-> AnyDepth]
Shown(w) == IF HasErr(w) THEN Err ELSE w
Pairs(reg) == {<<reg[i][1], reg[i][2]>> : i \in 1..Len(reg)}
NoDup(vs) == \A i, j \in 1..Len(vs) : i # j => vs[i] # vs[j]
CheckCat(e) ==
  LET T == TypeOf(e.a)
      w == L(Denote(e.a))
  IN  IF Outcome(e.out) # w THEN Reject(e, w)
      ELSE IF TypeOf(e.out.n) # Categorized(Plain(T)) THEN Reject(e, Categorized(Plain(T)))
      ELSE IF ~e.iscat THEN Reject(e, "is_categorical")
      ELSE LET cs == Denote(e.cats.n)
           IN  IF ~NoDup(cs) THEN Reject(e, "distinct")
               ELSE IF ~(LeafVals(<<"list", "", Plain(T)>>, w) \subseteq ToSet(cs)) THEN Reject(e, "categories")
               ELSE TRUE
CheckUncat(e) == LET w == L(Denote(e.a)) IN
  IF Outcome(e.out) # w THEN Reject(e, w)
  ELSE IF TypeOf(e.out.n) # Plain(TypeOf(e.a)) THEN Reject(e, Plain(TypeOf(e.a)))
  ELSE IF e.iscat THEN Reject(e, "is_categorical") ELSE TRUE
CheckFn(e) == LET o == Opts(e.fn)
                  w == Shown(BC(Map(e.xs, Input), IF Has(e, "stop") THEN o @@ [stop |-> e.stop] ELSE IF Has(e, "cats") THEN o @@ [cats |-> TRUE] ELSE o))
              IN  IF Outcome(e.out) # w THEN Reject(e, w)
                  ELSE IF Has(e, "name") /\ e.out.k = "arr" /\ DeepName(TypeOf(e.out.n)) # e.name THEN Reject(e, e.name) ELSE TRUE
CheckClass(e) ==
  LET reg == Pairs(e.reg)
      T == TypeOf(e.out.n)
      w == IF e.out.k = "row" THEN RecordClass(IF T[1] = "opt" THEN T[2] ELSE T, reg) ELSE ArrayClass(T, reg)
  IN  IF <<e.cls[1], e.cls[2]>> = w THEN TRUE ELSE Reject(e, w)
(* arrays of characters or bytes are the strings they spell *)
CheckText(e) == LET w == CASE e.what = "eq" -> Bool(e.v = e.w)
                           [] e.what = "ne" -> Bool(e.v # e.w)
                           [] e.what = "add" -> <<e.v[1], e.v[2] \o e.w[2]>>
                           [] e.what = "radd" -> <<e.v[1], e.w[2] \o e.v[2]>>
                           [] OTHER -> e.v
                IN  IF Outcome(e.out) # w THEN Reject(e, w) ELSE TRUE
Check(e) == CASE e.op = "cat" -> CheckCat(e)
              [] e.op = "uncat" -> CheckUncat(e)
              [] e.op = "fn" -> CheckFn(e)
              [] e.op = "text" -> CheckText(e)
              [] e.op = "class" -> CheckClass(e)
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
