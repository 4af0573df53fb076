------------------------------- MODULE Convert --------------------------------
(* What conversions preserve.                                                     *)
EXTENDS Struct

(* JSON and Arrow have no tuples: they become records with fields "0", "1", ...    *)
RECURSIVE NoTuples(_)
NoTuples(v) ==
  CASE v[1] = "l" -> L(Map(v[2], NoTuples))
    [] v[1] = "t" -> <<"r", Tab(Len(v[2]), LAMBDA i : ToString(i - 1)), Map(v[2], NoTuples)>>
    [] v[1] = "r" -> <<"r", v[2], Map(v[3], NoTuples)>>
    [] OTHER -> v
(* JSON numbers outside of the finite, by the strings given for them *)
RECURSIVE Named(_, _)
Named(q, v) ==
  CASE v[1] = "l" -> L(Map(v[2], LAMBDA x : Named(q, x)))
    [] v[1] = "r" -> <<"r", v[2], Map(v[3], LAMBDA x : Named(q, x))>>
    [] v[1] = "c" /\ Has(q, "cplx") -> <<"r", q.cplx, <<<<"n", v[2]>>, <<"n", v[3]>>>>>>
    [] v[1] = "nan" /\ Has(q, "nan") -> q.nan
    [] v[1] = "inf" /\ Has(q, "inf") -> q.inf
    [] v[1] = "ninf" /\ Has(q, "ninf") -> q.ninf
    [] OTHER -> v

(* the kinds of node an array is made of and their parameters, without the data *)
RECURSIVE Skeleton(_)
Skeleton(nd) ==
  <<IF nd.c = "bit" THEN "bm" ELSE nd.c, Param(nd), Get(nd, "rn", ""), Get(nd, "op", ""),
    IF nd.c = "rec" THEN nd.k ELSE <<>>, IF nd.c = "np" THEN <<nd.dt>> \o Map(Tail(nd.sh), ToString) ELSE <<>>,
    IF Has(nd, "x") THEN <<Skeleton(nd.x)>> ELSE IF Has(nd, "xs") THEN Map(nd.xs, Skeleton) ELSE <<>>>>

(* NumPy: every list at a level has the same length; a missing list is a list of     *)
(* missing values.  Shape: the lengths below a column of type T, or <<-1>>: ragged.    *)
RECURSIVE Shape(_, _)
Shape(T0, vs0) ==
  LET T == Strip(T0)
      vs == Filter(vs0, LAMBDA v : ~IsNone(v))
  IN  IF ~IsListT(T) THEN <<>>
      ELSE LET n == IF T[1] = "reg" THEN T[3] ELSE IF vs = <<>> THEN 0 ELSE Len(vs[1][2])
               sub == Shape(Elt(T), Join(vs))
           IN  IF AnyOf(vs, LAMBDA v : Len(v[2]) # n) \/ sub = <<-1>> THEN <<-1>> ELSE <<n>> \o sub
RECURSIVE Filled(_, _)
(* a missing value of that shape *)
Filled(v, sh) == IF sh = <<>> THEN v
                 ELSE IF IsNone(v) THEN L(Rep(sh[1], Filled(None, Tail(sh))))
                 ELSE L(Map(v[2], LAMBDA x : Filled(x, Tail(sh))))
ToNumpy(T, vs) == LET sh == Shape(T, vs) IN IF sh = <<-1>> THEN Err ELSE L(Map(vs, LAMBDA v : Filled(v, sh)))
==============================================================================
