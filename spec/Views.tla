-------------------------------- MODULE Views --------------------------------
(* What compiled (Numba) code sees of an array: a view is a value, reached from  *)
(* the whole array by steps (an item, a range, a field), each of which is a      *)
(* transition from view to view.  A step from a missing value stays there.       *)
EXTENDS Layout
VErr == <<"err">>
Items(v) == v[2]
(* Python's meaning of a position in a list of n items: 0-based, wrapped around once *)
Pos(i, n) == IF i < 0 THEN i + n ELSE i
ItemAt(v, i) == LET n == Len(Items(v)) k == Pos(i, n) IN IF k < 0 \/ k >= n THEN VErr ELSE Items(v)[k + 1]
Clip(i, n) == LET k == Pos(i, n) IN IF k < 0 THEN 0 ELSE IF k > n THEN n ELSE k
ItemRange(v, s, t) == LET n == Len(Items(v)) IN <<"l", SubSeq(Items(v), Clip(s, n) + 1, Clip(t, n))>>
(* a field of records in lists at any depth *)
RECURSIVE FieldOf(_, _)
FieldOf(v, st) ==
  CASE v[1] = "none" -> v
    [] v[1] = "l" -> <<"l", [i \in 1..Len(v[2]) |-> FieldOf(v[2][i], st)]>>
    [] v[1] = "t" -> v[2][st.n + 1]
    [] v[1] = "r" -> v[3][CHOOSE i \in 1..Len(v[2]) : v[2][i] = st.f]
    [] OTHER -> VErr
Step(v, st) ==
  IF v[1] \in {"none", "err"} THEN v ELSE
  CASE st.k = "at" -> ItemAt(v, st.i)
    [] st.k = "range" -> ItemRange(v, st.s, st.t)
    [] st.k = "field" -> FieldOf(v, st)
    [] st.k = "len" -> <<"n", 2 * Len(Items(v))>>
RECURSIVE Reach(_, _, _)
Reach(v, steps, k) == IF k > Len(steps) THEN v ELSE Reach(Step(v, steps[k]), steps, k + 1)
==============================================================================
