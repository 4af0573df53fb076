-------------------------------- MODULE Merge ---------------------------------
(* Joining arrays end to end or list by list, choosing between arrays, and        *)
(* putting arrays side by side as the fields of records.                          *)
EXTENDS Struct

(* ------------------------------------------------------------ concatenate ---- *)
(* vs: one value per array; the lists at level k are joined.  A scalar counts as   *)
(* a list of one; a missing list at that level as an empty one.                    *)
RECURSIVE ConcatAt(_, _)
ConcatAt(vs, k) ==
  IF k = 0 THEN L(Cat(Map(vs, LAMBDA v : IF IsNone(v) THEN <<>> ELSE IF IsList(v) THEN v[2] ELSE <<v>>)))
  ELSE IF AnyOf(vs, IsNone) THEN None
  ELSE LET ls == Filter(vs, IsList)
           n == Len(ls[1][2])
       IN  IF AnyOf(ls, LAMBDA v : Len(v[2]) # n) THEN Err
           ELSE L(Tab(n, LAMBDA i : ConcatAt(Map(vs, LAMBDA v : IF IsList(v) THEN v[2][i] ELSE v), k - 1)))

(* ------------------------------------------------------------------ where ---- *)
(* c decides at the level of its booleans; x and y have at least that structure,    *)
(* or are repeated over it                                                          *)
RECURSIVE WhereAt(_, _, _)
Pick(v, i) == IF IsList(v) THEN v[2][i] ELSE v
WhereAt(c, x, y) ==
  IF IsNone(c) THEN None
  ELSE IF ~IsList(c) THEN (IF c[1] = "b" THEN (IF c[2] THEN x ELSE y) ELSE IF c # Num(0) THEN x ELSE y)
  ELSE IF IsNone(x) \/ IsNone(y) THEN None
  ELSE IF \E v \in {i \in {1, 2} : IsList(IF i = 1 THEN x ELSE y)} : Len((IF v = 1 THEN x ELSE y)[2]) # Len(c[2]) THEN Err
  ELSE L(Tab(Len(c[2]), LAMBDA i : WhereAt(c[2][i], Pick(x, i), Pick(y, i))))

(* -------------------------------------------------------------------- zip ---- *)
(* down to the level where no array has lists (or d levels), then side by side      *)
RECURSIVE ZipAt(_, _, _, _)
ZipAt(keys, Ts, vs, d) ==
  LET isl(i) == IsListT(Strip(Ts[i]))
      lists == {i \in 1..Len(Ts) : isl(i)}
  IN  IF d = 0 \/ lists = {} THEN AsTuple(keys, vs)
      ELSE IF AnyOf(vs, IsNone) THEN None
      ELSE LET n == Len(vs[CHOOSE i \in lists : TRUE][2])
           IN  IF \E i \in lists : Len(vs[i][2]) # n THEN Err
               ELSE L(Tab(n, LAMBDA j : ZipAt(keys, Tab(Len(Ts), LAMBDA i : IF isl(i) THEN Elt(Strip(Ts[i])) ELSE Ts[i]),
                                              Tab(Len(vs), LAMBDA i : IF isl(i) THEN vs[i][2][j] ELSE vs[i]), d - 1)))

(* ----------------------------------------------------------------- fields ---- *)
RECURSIVE FieldOf(_, _)
(* the field at position p of every record *)
FieldOf(v, p) == CASE v[1] = "l" -> L(Map(v[2], LAMBDA x : FieldOf(x, p)))
                   [] v[1] = "r" -> v[3][p]
                   [] v[1] = "t" -> v[2][p]
                   [] OTHER -> None
RECURSIVE RecT(_)
RecT(T) == CASE T[1] = "opt" -> RecT(T[2])
             [] T[1] \in {"list", "reg"} -> RecT(Elt(T))
             [] OTHER -> T
(* without position p (0: none), then one more field *)
Drop(s, p) == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
RECURSIVE WithField(_, _, _, _)
WithField(v, w, p, key) ==
  CASE v[1] = "none" -> None
    [] v[1] = "t" -> IF key = "" THEN <<"t", v[2] \o <<w>>>>
                     ELSE <<"r", Drop(Tab(Len(v[2]), LAMBDA i : ToString(i - 1)), p) \o <<key>>, Drop(v[2], p) \o <<w>>>>
    [] v[1] = "r" -> <<"r", Drop(v[2], p) \o <<IF key = "" THEN ToString(Len(v[2])) ELSE key>>, Drop(v[3], p) \o <<w>>>>
    [] v[1] = "l" -> IF IsNone(w) THEN None
                     ELSE IF IsList(w) THEN (IF Len(w[2]) # Len(v[2]) THEN Err
                                             ELSE L(Tab(Len(v[2]), LAMBDA i : WithField(v[2][i], w[2][i], p, key))))
                     ELSE L(Map(v[2], LAMBDA x : WithField(x, w, p, key)))
RECURSIVE Rename(_, _)
Rename(T, name) == CASE T[1] = "rec" -> <<"rec", name, T[3], T[4], T[5]>>
                     [] T[1] = "opt" -> <<"opt", Rename(T[2], name)>>
                     [] T[1] = "list" -> <<"list", T[2], Rename(T[3], name)>>
                     [] T[1] = "reg" -> <<"reg", T[2], T[3], Rename(T[4], name)>>
                     [] OTHER -> T
RECURSIVE AnyReg(_)
AnyReg(T) == CASE T[1] = "reg" -> TRUE
               [] T[1] = "opt" -> AnyReg(T[2])
               [] T[1] = "list" -> AnyReg(Elt(T))
               [] T[1] = "rec" -> AnyOf(T[5], AnyReg)
               [] T[1] = "un" -> AnyOf(T[2], AnyReg)
               [] OTHER -> FALSE
==============================================================================
