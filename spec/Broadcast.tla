------------------------------ MODULE Broadcast -------------------------------
(* How arrays of different structure are matched up, element by element.         *)
(* An input is a record [t |-> type, v |-> value]; a whole array is a list of    *)
(* fixed size.                                                                   *)
EXTENDS Reduce

In(T, v) == [t |-> T, v |-> v]
Top(nd) == LET vs == Denote(nd) IN In(<<"reg", "", Len(vs), TypeOf(nd)>>, L(vs))

(* Only fixed-size lists all the way down to a number or a record (the characters *)
(* of strings are lists of different lengths)                                    *)
RECURSIVE RegularT(_), DepthT(_)
RegularT(T0) == LET T == Strip(T0) IN IF IsListT(T) THEN T[1] = "reg" /\ RegularT(Elt(T)) ELSE ~IsStr(T)
DepthT(T0) == LET T == Strip(T0) IN IF IsListT(T) THEN 1 + DepthT(Elt(T)) ELSE 0

(* NumPy's universal functions on exactly representable numbers *)
Eq(u, v) == AsNum(u) = AsNum(v)
Lt(u, v) == IF u[1] = "nan" \/ v[1] = "nan" THEN FALSE ELSE Less(AsNum(u), AsNum(v))
Neg(v) == <<"n", -AsNum(v)[2]>>
Half(k) == k \div 2
Common(w, u, v) == IF u[1] = "b" /\ v[1] = "b" THEN w ELSE AsNum(w)
UfuncAt(op, a) ==
  LET u == a[1]
      v == IF Len(a) > 1 THEN a[2] ELSE a[1]
  IN
  CASE op = "add" -> Plus(u, v)
    [] op = "subtract" -> Plus(u, Neg(v))
    [] op = "multiply" -> <<"n", Half(AsNum(u)[2] * AsNum(v)[2])>>
    [] op = "floor_divide" -> <<"n", 2 * FloorDiv(AsNum(u)[2], AsNum(v)[2])>>
    [] op = "remainder" -> <<"n", FloorMod(AsNum(u)[2], AsNum(v)[2])>>
    [] op = "maximum" -> Common(IF Lt(u, v) THEN v ELSE u, u, v)
    [] op = "minimum" -> Common(IF Lt(v, u) THEN v ELSE u, u, v)
    [] op = "negative" -> Neg(u)
    [] op = "absolute" -> IF AsNum(u)[2] < 0 THEN Neg(u) ELSE u
    [] op = "square" -> <<"n", Half(AsNum(u)[2] * AsNum(u)[2])>>
    [] op = "equal" -> Bool(Eq(u, v))
    [] op = "not_equal" -> Bool(~Eq(u, v))
    [] op = "less" -> Bool(Lt(u, v))
    [] op = "less_equal" -> Bool(~Lt(v, u))
    [] op = "greater" -> Bool(Lt(v, u))
    [] op = "greater_equal" -> Bool(~Lt(u, v))
    [] op = "logical_and" -> Bool(Truthy(u) /\ Truthy(v))
    [] op = "logical_or" -> Bool(Truthy(u) \/ Truthy(v))
    [] op = "logical_xor" -> Bool(Truthy(u) # Truthy(v))
    [] op = "logical_not" -> Bool(~Truthy(u))
(* fn: <<"pick", i>>, <<"tuple">>, <<"record", keys>>, <<"ufunc", name>>,          *)
(* <<"same", negated>>, <<"sum">>, <<"scale">> (functions of named records)      *)
LeafFn(o, a) == CASE o.fn[1] = "ufunc" -> UfuncAt(o.fn[2], a)
                  [] o.fn[1] = "pick" -> a[o.fn[2]]
                  [] o.fn[1] = "same" -> Bool((a[1] = a[2]) # o.fn[2])
                  [] o.fn[1] = "sum" -> <<"r", <<"x", "y">>, Map(<<"x", "y">>, LAMBDA k : Plus(a[1][3][IndexIn(a[1][2], k)], a[2][3][IndexIn(a[2][2], k)]))>>
                  [] o.fn[1] = "scale" -> <<"r", <<"x", "y">>, Map(<<"x", "y">>, LAMBDA k : UfuncAt("multiply", <<a[1][3][IndexIn(a[1][2], k)], a[2]>>))>>
                  [] o.fn[1] = "tuple" -> <<"t", a>>
                  [] o.fn[1] = "record" -> <<"r", o.fn[2], a>>

SomeT(T) == IF T[1] = "opt" THEN T[2] ELSE T
RECURSIVE BC(_, _)
(* o: [left, right, records, depth, fn] the allowed broadcasts, and what to do   *)
(* with the matched leaves (LeafFn)                                              *)
BC(xs, o) ==
  LET n == Len(xs)
      isl(i) == IsListT(xs[i].t)
      anyList == \E i \in 1..n : isl(i)
      maxd == MaxSeq(Map(xs, LAMBDA x : DepthT(x.t)), 0)
  IN
  IF o.depth = 0 THEN LeafFn(o, Map(xs, LAMBDA x : x.v))
  ELSE IF /\ anyList /\ o.right
          /\ \A i \in 1..n : RegularT(xs[i].t) \/ Has(xs[i], "sc")
          /\ \E i \in 1..n : ~Has(xs[i], "sc") /\ DepthT(xs[i].t) < maxd
  THEN BC(Map(xs, LAMBDA x : IF ~Has(x, "sc") /\ DepthT(x.t) < maxd THEN In(<<"reg", "", 1, x.t>>, L(<<x.v>>)) ELSE x), o)
  ELSE IF Has(o, "cats") /\ \A i \in 1..n : ~IsListT(SomeT(xs[i].t))
  THEN LeafFn(o, Map(xs, LAMBDA x : x.v))       \* two categorical arrays: missing is equal to missing
  ELSE IF \E i \in 1..n : xs[i].t[1] = "opt"
  THEN IF \E i \in 1..n : IsNone(xs[i].v) THEN None
       ELSE BC(Map(xs, LAMBDA x : IF x.t[1] = "opt" THEN In(x.t[2], x.v) ELSE x), o)
  ELSE IF anyList
  THEN LET vars == {i \in 1..n : isl(i) /\ xs[i].t[1] = "list"}
           regs == {i \in 1..n : isl(i) /\ xs[i].t[1] = "reg"}
           m == IF vars # {} THEN Len(xs[CHOOSE i \in vars : TRUE].v[2])
                ELSE LET sizes == {xs[i].t[3] : i \in regs} IN IF sizes = {0, 1} THEN 0 ELSE FoldLeft(Max2, 0, SetToSeq(sizes))
           ok == /\ \A i \in vars : Len(xs[i].v[2]) = m
                 /\ \A i \in regs : xs[i].t[3] \in {1, m}
                 /\ \A i \in 1..n : isl(i) \/ Has(xs[i], "sc") \/ o.left
       IN  IF ~ok THEN Err
           ELSE L(Tab(m, LAMBDA j :
                  BC(Tab(n, LAMBDA i : IF ~isl(i) THEN xs[i]
                                       ELSE In(Elt(xs[i].t), IF Len(xs[i].v[2]) = 1 THEN xs[i].v[2][1] ELSE xs[i].v[2][j])),
                     [o EXCEPT !.depth = @ - 1])))
  ELSE IF \E i \in 1..n : xs[i].t[1] = "rec"
  THEN IF Has(o, "stop") /\ \A i \in 1..n : IF xs[i].t[1] = "rec" THEN xs[i].t[2] = o.stop[i] ELSE o.stop[i] = "" THEN LeafFn(o, Map(xs, LAMBDA x : x.v))
       ELSE IF ~o.records THEN Err
       ELSE LET recs == {i \in 1..n : xs[i].t[1] = "rec"}
                r1 == CHOOSE i \in recs : \A j \in recs : i <= j
                keys == xs[r1].t[4]
                tup == \A i \in recs : xs[i].t[3]
                fld(x, k) == LET p == IndexIn(x.t[4], k) IN In(x.t[5][p], IF x.t[3] THEN x.v[2][p] ELSE x.v[3][p])
            IN  IF \E i \in recs : ToSet(xs[i].t[4]) # ToSet(keys) THEN Err
                ELSE LET cols == Map(keys, LAMBDA k : BC(Tab(n, LAMBDA i : IF i \in recs THEN fld(xs[i], k) ELSE xs[i]), o))
                     IN  IF tup THEN <<"t", cols>> ELSE <<"r", keys, cols>>
  ELSE LeafFn(o, Map(xs, LAMBDA x : x.v))

AnyDepth == 99
=============================================================================
