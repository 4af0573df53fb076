--------------------------------- MODULE Sort ---------------------------------
(* Sorting along an axis.  Lists are sorted one by one; at an axis that is not    *)
(* the innermost, the values at the same inner position (aligned on the left)     *)
(* are sorted among each other and put back in the places they came from.         *)
(* Missing values come last; argsort counts positions among those present.        *)
EXTENDS Types

RECURSIVE LexLess(_, _)
LexLess(s, t) == IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE
                 ELSE s[1] < t[1] \/ (s[1] = t[1] /\ LexLess(Tail(s), Tail(t)))
Rank(v) == CASE v[1] = "b" -> <<0, IF v[2] THEN 1 ELSE 0>>
             [] v[1] = "n" -> <<0, v[2]>>
             [] v[1] = "inf" -> <<1, 0>>
             [] v[1] = "ninf" -> <<-1, 0>>
Below(u, v) == IF u[1] \in {"s", "y"} THEN LexLess(u[2], v[2])
               ELSE IF IsW(u) \/ IsW(v)
               THEN u[1] = "ninf" \/ v[1] = "inf" \/ (u[1] \in {"n", "w"} /\ v[1] \in {"n", "w"} /\ LessW(u, v))
               ELSE LET a == Rank(u) b == Rank(v) IN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* u must come before v; NaN comes last in both directions *)
Before(u, v, asc) == IF u = <<"nan">> THEN FALSE ELSE IF v = <<"nan">> THEN TRUE
                     ELSE IF asc THEN Below(u, v) ELSE Below(v, u)
(* indexes of vs in order; equal values keep their order *)
Order(vs, asc) == SortSeq(Tab(Len(vs), LAMBDA i : i),
                          LAMBDA i, j : Before(vs[i], vs[j], asc) \/ (~Before(vs[j], vs[i], asc) /\ i < j))
RECURSIVE SortCol(_, _, _)
SortCol(q, T0, vs) ==
  LET T == Strip(T0)
      here == Filter(vs, LAMBDA v : ~IsNone(v))
      gone == IF q.drop THEN <<>> ELSE Rep(Len(vs) - Len(here), None)
  IN  IF IsListT(T)
      THEN LET cols == Tab(MaxSeq(Map(here, LAMBDA v : Len(v[2])), 0), LAMBDA j :
                          SortCol([q EXCEPT !.drop = FALSE], Elt(T), Map(Filter(here, LAMBDA v : Len(v[2]) >= j), LAMBDA v : v[2][j])))
               at(i, j) == Len(Filter(SubSeq(here, 1, i), LAMBDA v : Len(v[2]) >= j))
           IN  Tab(Len(here), LAMBDA i : L(Tab(Len(here[i][2]), LAMBDA j : cols[j][at(i, j)]))) \o gone
      ELSE Map(Order(here, q.asc), LAMBDA i : IF q.arg THEN Num(i - 1) ELSE here[i]) \o gone
==============================================================================
