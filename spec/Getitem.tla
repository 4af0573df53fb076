------------------------------- MODULE Getitem --------------------------------
(* array[items]: what slicing returns, as a function of the array's type and     *)
(* values only.  Slice items:                                                    *)
(*   at i | range (a) (b) s | new | ell | field f | fields fs                    *)
(*   arr sh d      integer array, flattened, with shape                          *)
(*   mask sh d     boolean array                                                 *)
(*   jag v         nested lists of integers/booleans/missing (v: tagged value)   *)
EXTENDS Types

(* Python's slice(a, b, s).indices(n) as a sequence of 1-based positions *)
PySlice(n, it) ==
  LET s == Get(it, "s", 1)
      norm(x, lo, hi) == LET y == IF x < 0 THEN x + n ELSE x IN Max2(lo, Min2(hi, y))
      a == IF s > 0 THEN (IF Has(it, "a") THEN norm(it.a, 0, n) ELSE 0)
                    ELSE (IF Has(it, "a") THEN norm(it.a, -1, n-1) ELSE n-1)
      b == IF s > 0 THEN (IF Has(it, "b") THEN norm(it.b, 0, n) ELSE n)
                    ELSE (IF Has(it, "b") THEN norm(it.b, -1, n-1) ELSE -1)
      m == IF s > 0 THEN (IF b > a THEN (b - a + s - 1) \div s ELSE 0)
                    ELSE (IF a > b THEN (a - b + (-s) - 1) \div (-s) ELSE 0)
  IN  Tab(m, LAMBDA k : a + (k-1)*s + 1)

(* wrap a possibly negative index; 0 means out of range *)
Wrap(i, n) == LET j == IF i < 0 THEN i + n ELSE i IN IF 0 <= j /\ j < n THEN j + 1 ELSE 0

(* ------------------------------------------------------------- fields ------ *)
RECURSIVE FieldT(_, _), FieldV(_, _)
FieldT(T, f) ==
  CASE T[1] = "list" -> LET U == FieldT(T[3], f) IN IF U = Err THEN Err ELSE <<"list", "", U>>
    [] T[1] = "reg" -> LET U == FieldT(T[4], f) IN IF U = Err THEN Err ELSE <<"reg", "", T[3], U>>
    [] T[1] = "opt" -> LET U == FieldT(T[2], f) IN IF U = Err THEN Err
                                                   ELSE IF U[1] = "opt" THEN U ELSE <<"opt", U>>
    [] T[1] = "rec" -> LET i == IndexIn(T[4], f) IN IF i = 0 THEN Err ELSE T[5][i]
    [] OTHER -> Err
FieldV(v, f) ==
  CASE v[1] = "none" -> v
    [] v[1] = "l" -> L(Map(v[2], LAMBDA x : FieldV(x, f)))
    [] v[1] = "r" -> v[3][IndexIn(v[2], f)]
    [] v[1] = "t" -> v[2][IndexIn(Tab(Len(v[2]), LAMBDA i : ToString(i-1)), f)]
RECURSIVE FieldsT(_, _), FieldsV(_, _)
FieldsT(T, fs) ==
  CASE T[1] = "list" -> LET U == FieldsT(T[3], fs) IN IF U = Err THEN Err ELSE <<"list", "", U>>
    [] T[1] = "reg" -> LET U == FieldsT(T[4], fs) IN IF U = Err THEN Err ELSE <<"reg", "", T[3], U>>
    [] T[1] = "opt" -> LET U == FieldsT(T[2], fs) IN IF U = Err THEN Err ELSE <<"opt", U>>
    [] T[1] = "rec" -> IF \A i \in 1..Len(fs) : IndexIn(T[4], fs[i]) # 0
                       THEN <<"rec", "", T[3], fs, Map(fs, LAMBDA f : T[5][IndexIn(T[4], f)])>>
                       ELSE Err
    [] OTHER -> Err
FieldsV(v, fs) ==
  CASE v[1] = "none" -> v
    [] v[1] = "l" -> L(Map(v[2], LAMBDA x : FieldsV(x, fs)))
    [] v[1] = "r" -> <<"r", fs, Map(fs, LAMBDA f : v[3][IndexIn(v[2], f)])>>
    [] v[1] = "t" -> <<"t", Map(fs, LAMBDA f : FieldV(v, f))>>

(* -------------------------------------------------- array items (NumPy) ---- *)
Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
BadShape == <<-1>>
BroadcastShape(s, t) ==                                \* BadShape if incompatible
  LET n == Max2(Len(s), Len(t))
      S(i) == IF i + Len(s) > n THEN s[i + Len(s) - n] ELSE 1
      U(i) == IF i + Len(t) > n THEN t[i + Len(t) - n] ELSE 1
  IN  IF \A i \in 1..n : S(i) = U(i) \/ S(i) = 1 \/ U(i) = 1
      THEN Tab(n, LAMBDA i : IF S(i) = 1 THEN U(i) ELSE S(i))
      ELSE BadShape
(* element p (1-based, row-major in shape B) of data d with shape s broadcast to B *)
BroadcastAt(d, s, B, p) ==
  LET off == Len(B) - Len(s)
      strideB(i) == Prod(SubSeq(B, i + 1, Len(B)))
      strideS(i) == Prod(SubSeq(s, i + 1, Len(s)))
      coord(i) == ((p - 1) \div strideB(i)) % B[i]
      pos == SumSeq(Tab(Len(s), LAMBDA i : IF s[i] = 1 THEN 0 ELSE coord(i + off) * strideS(i)))
  IN  d[pos + 1]
(* a boolean array means one integer array per dimension: the positions of TRUE *)
NonzeroItems(it) ==
  LET hits == Filter(Tab(Len(it.d), LAMBDA p : p), LAMBDA p : it.d[p])
      stride(i) == Prod(SubSeq(it.sh, i + 1, Len(it.sh)))
  IN  Tab(Len(it.sh), LAMBDA i : [k |-> "arr", sh |-> <<Len(hits)>>,
                                   d |-> Map(hits, LAMBDA p : ((p - 1) \div stride(i)) % it.sh[i])])

ExpandMasks(items) == Cat(Map(items, LAMBDA it : IF it.k = "mask" THEN NonzeroItems(it) ELSE <<it>>))
HasArr(items) == \E i \in 1..Len(items) : items[i].k = "arr"
IntsToArrs(items) == IF HasArr(items)
                     THEN LET nd == Len(Filter(items, LAMBDA it : it.k = "arr")[1].sh)
                          IN  Map(items, LAMBDA it : IF it.k = "at" THEN [k |-> "arr", sh |-> Rep(nd, 1), d |-> <<it.i>>] ELSE it)
                     ELSE items
Shapes(items) == LET as == Filter(items, LAMBDA it : it.k = "arr")
                 IN  FoldLeft(LAMBDA s, it : IF s = BadShape \/ Len(it.sh) # Len(s) THEN BadShape
                                               ELSE BroadcastShape(s, it.sh), IF as = <<>> THEN <<>> ELSE as[1].sh, as)
Align(items, B) == Map(items, LAMBDA it :
                     IF it.k = "arr" THEN [k |-> "arr", sh |-> B, d |-> Tab(Prod(B), LAMBDA p : BroadcastAt(it.d, it.sh, B, p))]
                     ELSE it)
Consumed(items) == Len(Filter(items, LAMBDA it : it.k \in {"at", "range", "arr"}))
ExpandEllipsis(items, depth) ==
  LET p == IndexIn(Map(items, LAMBDA it : it.k), "ell")
  IN  IF p = 0 THEN items
      ELSE SubSeq(items, 1, p - 1)
           \o Rep(Max2(0, depth - Consumed(items)), [k |-> "range", s |-> 1])
           \o SubSeq(items, p + 1, Len(items))

(* Apply the remaining items to one value.  adv = 0: no array item met yet;      *)
(* adv = j: position in the (common) array items.                                *)
RECURSIVE Elem(_, _, _)
Elem(v, items, adv) ==
  IF items = <<>> THEN v
  ELSE IF Head(items).k = "new" THEN L(<<Elem(v, Tail(items), adv)>>)
  ELSE IF v[1] = "none" THEN v
  ELSE IF v[1] = "r" THEN <<"r", v[2], Map(v[3], LAMBDA x : Elem(x, items, adv))>>
  ELSE IF v[1] = "t" THEN <<"t", Map(v[2], LAMBDA x : Elem(x, items, adv))>>
  ELSE LET it == Head(items)
           rest == Tail(items)
       IN
       IF v[1] # "l" THEN Err
       ELSE CASE it.k = "at" -> LET p == Wrap(it.i, Len(v[2])) IN IF p = 0 THEN Err ELSE Elem(v[2][p], rest, adv)
              [] it.k = "range" -> L(Map(PySlice(Len(v[2]), it), LAMBDA p : Elem(v[2][p], rest, adv)))
              [] it.k = "arr" ->
                   IF adv # 0 THEN LET p == Wrap(it.d[adv], Len(v[2])) IN IF p = 0 THEN Err ELSE Elem(v[2][p], rest, adv)
                   ELSE LET out == Tab(Len(it.d), LAMBDA j :
                                     LET p == Wrap(it.d[j], Len(v[2])) IN IF p = 0 THEN Err ELSE Elem(v[2][p], rest, j))
                        IN  L(Nest(out, it.sh))

(* ------------------------------------------ nested (jagged) slices --------- *)
(* j has d list levels: the outer d-1 have to match the array's lists one by     *)
(* one, the innermost selects.                                                   *)
RECURSIVE Jag(_, _, _)
Jag(v, j, d) ==
  IF v[1] = "none" \/ j[1] = "none" THEN None
  ELSE IF v[1] = "r" THEN <<"r", v[2], Map(v[3], LAMBDA x : Jag(x, j, d))>>
  ELSE IF v[1] = "t" THEN <<"t", Map(v[2], LAMBDA x : Jag(x, j, d))>>
  ELSE IF v[1] # "l" THEN Err
  ELSE IF d = 1
       THEN LET isbool == \E i \in 1..Len(j[2]) : j[2][i][1] = "b"
                all == Tab(Len(j[2]), LAMBDA i : i)
                keep == IF isbool THEN Filter(all, LAMBDA i : j[2][i][1] = "none" \/ j[2][i][2]) ELSE all
            IN  IF isbool /\ Len(j[2]) # Len(v[2]) THEN Err
                ELSE L(Map(keep, LAMBDA i :
                     IF j[2][i][1] = "none" THEN None
                     ELSE LET p == IF isbool THEN i ELSE Wrap(j[2][i][2] \div 2, Len(v[2]))
                          IN  IF p = 0 THEN Err ELSE v[2][p]))
       ELSE IF Len(v[2]) # Len(j[2]) THEN Err
       ELSE L(Tab(Len(v[2]), LAMBDA i : Jag(v[2][i], j[2][i], d - 1)))

(* ---------------------------------------------------------------- top ------ *)
ApplyFields(T, vs, items) ==
  FoldLeft(LAMBDA s, it :
             IF s[1] = Err THEN s
             ELSE IF it.k = "field" THEN LET U == FieldT(s[1], it.f) IN
                    IF U = Err THEN <<Err, <<>>>> ELSE <<U, Map(s[2], LAMBDA v : FieldV(v, it.f))>>
             ELSE IF it.k = "fields" THEN LET U == FieldsT(s[1], it.fs) IN
                    IF U = Err THEN <<Err, <<>>>> ELSE <<U, Map(s[2], LAMBDA v : FieldsV(v, it.fs))>>
             ELSE s,
           <<T, vs>>, items)

(* Integers count as arrays when arrays are present; all of them have to be adjacent *)
Adjacent(items) ==
  LET arrs == \E i \in 1..Len(items) : items[i].k \in {"arr", "mask"}
      adv == {i \in 1..Len(items) : items[i].k \in {"arr", "mask", "at"}}
  IN  arrs => \A i, j \in adv : \A k \in i..j : k \in adv

(* An index beyond the declared size of a regular dimension may be rejected even *)
(* when no row is left to apply it to.                                           *)
RECURSIVE MayReject(_, _)
MayReject(T0, items) ==
  LET T == Strip(T0) IN
  IF items = <<>> THEN FALSE
  ELSE IF Head(items).k = "new" THEN MayReject(T, Tail(items))
  ELSE IF T[1] = "rec" THEN \E i \in 1..Len(T[5]) : MayReject(T[5][i], items)
  ELSE IF T[1] = "un" THEN \E i \in 1..Len(T[2]) : MayReject(T[2][i], items)
  ELSE IF ~IsListT(T) THEN FALSE
  ELSE LET it == Head(items)
           idx == IF it.k = "at" THEN <<it.i>> ELSE IF it.k = "arr" THEN it.d ELSE <<>>
       IN  \/ T[1] = "reg" /\ \E i \in 1..Len(idx) : Wrap(idx[i], T[3]) = 0
           \/ MayReject(Elt(T), Tail(items))

(* The slice of an array with element type T0 and elements vs0 *)
RECURSIVE Slice(_, _, _, _)
Slice(T0, vs0, items0, out) ==
  LET f == ApplyFields(T0, vs0, items0)
      T == f[1]
      vs == f[2]
      rest == Filter(items0, LAMBDA it : it.k \notin {"field", "fields"})
  IN
  IF T = Err \/ ~Adjacent(items0) THEN Err
  ELSE IF Len(rest) = 0 THEN L(vs)
  \* a field picked after an index: the index may be applied to the other fields, too
  ELSE IF out = Err /\ Len(rest) # Len(items0) /\ HasErr(Slice(T0, vs0, rest, out)) THEN Err
  ELSE IF rest[1].k = "jag" THEN Jag(L(vs), rest[1].v, rest[1].d)
  ELSE
  LET e1 == ExpandMasks(rest)
      e2 == IntsToArrs(e1)
      B == Shapes(e2)
  IN
  IF B = BadShape THEN Err
  ELSE LET e3 == IF HasArr(e2) THEN Align(e2, B) ELSE e2
           depth == 1 + MinDepth(T)
           e4 == ExpandEllipsis(e3, depth)
       IN  IF Consumed(e3) > depth THEN Err
           ELSE IF out = Err /\ MayReject(<<"list", "", T>>, e4) THEN Err
           ELSE Elem(L(vs), e4, 0)
==============================================================================
