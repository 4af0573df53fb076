-------------------------------- MODULE Reduce --------------------------------
(* Reducers.  Each list along the chosen axis is combined into one value; at an  *)
(* axis that is not the innermost, lists are combined position by position,      *)
(* aligned on the left.  Missing values do not contribute.                       *)
EXTENDS Types

(* ------------------------------------------------------- leaf arithmetic --- *)
Truthy(v) == CASE v[1] = "b" -> v[2] [] v[1] = "n" -> v[2] # 0 [] v[1] = "c" -> v[2] # 0 \/ v[3] # 0
               [] v[1] = "d" -> v[3] # 0 [] OTHER -> TRUE
AsNum(v) == IF v[1] = "b" THEN <<"n", IF v[2] THEN 2 ELSE 0>> ELSE v
Plus(u0, v0) ==
  LET u == AsNum(u0) v == AsNum(v0) IN
  IF u[1] = "nan" \/ v[1] = "nan" THEN <<"nan">>
  ELSE IF u[1] \in {"inf", "ninf"} THEN (IF v[1] \in {"inf", "ninf"} /\ v[1] # u[1] THEN <<"nan">> ELSE u)
  ELSE IF v[1] \in {"inf", "ninf"} THEN v
  ELSE IF u[1] = "c" \/ v[1] = "c" THEN
         LET re(x) == x[2] im(x) == IF x[1] = "c" THEN x[3] ELSE 0
         IN  <<"c", re(u) + re(v), im(u) + im(v)>>
  ELSE AddN(u, v)
Times(u0, v0) ==
  LET u == AsNum(u0) v == AsNum(v0) IN
  IF u[1] = "c" \/ v[1] = "c" THEN
         LET re(x) == x[2] im(x) == IF x[1] = "c" THEN x[3] ELSE 0
         IN  <<"c", (re(u) * re(v) - im(u) * im(v)) \div 2, (re(u) * im(v) + im(u) * re(v)) \div 2>>
  ELSE MulN(u, v)
(* Order of numbers (booleans, numbers, infinities, times) *)
Key(v) == CASE v[1] = "b" -> <<0, IF v[2] THEN 1 ELSE 0>>
            [] v[1] = "n" -> <<0, v[2]>>
            [] v[1] = "d" -> <<0, v[3]>>
            [] v[1] = "inf" -> <<1, 0>>
            [] v[1] = "ninf" -> <<-1, 0>>
Less(u, v) == IF u[1] = "c" THEN u[2] < v[2] \/ (u[2] = v[2] /\ u[3] < v[3])
              ELSE IF IsW(u) \/ IsW(v)
              THEN u[1] = "ninf" \/ v[1] = "inf" \/ (u[1] \in {"n", "w"} /\ v[1] \in {"n", "w"} /\ LessW(u, v))
              ELSE LET a == Key(u) b == Key(v) IN a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

(* the largest and smallest number of a primitive type, what an empty min / max gives *)
TopOf(dt) == CASE dt = "bool" -> Bool(TRUE) [] dt = "int8" -> Num(127) [] dt = "uint8" -> Num(255)
               [] dt = "int16" -> Num(32767) [] dt = "uint16" -> Num(65535)
               [] dt = "int32" -> <<"w", FALSE, <<255, 255, 255, 127>>>> [] dt = "uint32" -> <<"w", FALSE, <<255, 255, 255, 255>>>>
               [] dt = "int64" -> <<"w", FALSE, <<255, 255, 255, 255, 255, 255, 255, 127>>>> [] dt = "uint64" -> <<"w", FALSE, <<255, 255, 255, 255, 255, 255, 255, 255>>>>
               [] dt \in {"complex64", "complex128"} -> <<"x", "(inf+0j)">> [] OTHER -> <<"inf">>
BottomOf(dt) == CASE dt = "bool" -> Bool(FALSE) [] dt \in {"uint8", "uint16", "uint32", "uint64"} -> Num(0)
                  [] dt = "int8" -> Num(-128) [] dt = "int16" -> Num(-32768)
                  [] dt = "int32" -> <<"w", TRUE, <<0, 0, 0, 128>>>> [] dt = "int64" -> <<"w", TRUE, <<0, 0, 0, 0, 0, 0, 0, 128>>>>
                  [] dt \in {"complex64", "complex128"} -> <<"x", "(-inf+0j)">> [] OTHER -> <<"ninf">>
UnsignedT(dt) == dt \in {"uint8", "uint16", "uint32", "uint64"}
FloatT(dt) == dt \in {"float16", "float32", "float64", "float128"}
IntT(dt) == dt \in {"int8", "int16", "int32", "int64"} \/ UnsignedT(dt)
ResultDt(op, dt) ==
  CASE op \in {"count", "count_nonzero", "argmin", "argmax"} -> "int64"
    [] op \in {"any", "all"} -> "bool"
    [] op \in {"min", "max"} -> dt
    [] op \in {"sum", "prod"} -> IF UnsignedT(dt) THEN "uint64"
                                 ELSE IF IntT(dt) \/ dt = "bool" THEN "int64" ELSE dt

(* ---------------------------------------------- means, as exact fractions -- *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(p, q) == IF q = 0 THEN <<"nan">>
              ELSE LET s == IF q < 0 THEN -1 ELSE 1
                       g == Gcd(IF p < 0 THEN -p ELSE p, q * s)
                   IN  <<"q", (s * p) \div g, (s * q) \div g>>
(* a weighted value is <<"p", value, weight>> *)
X2(v) == IF v[1] = "p" THEN AsNum(v[2])[2] ELSE AsNum(v)[2]        \* twice the value
Wt(v) == IF v[1] = "p" THEN v[3][2] \div 2 ELSE 1
Pow(b, n) == FoldLeft(LAMBDA a, i : a * b, 1, Tab(n, LAMBDA i : i))
MomentOp(op, k, xs) ==
  LET w == SumSeq(Map(xs, LAMBDA x : Wt(x[2])))
      s1 == SumSeq(Map(xs, LAMBDA x : Wt(x[2]) * X2(x[2])))
      s2 == SumSeq(Map(xs, LAMBDA x : Wt(x[2]) * X2(x[2]) * X2(x[2])))
  IN  CASE op = "mean" -> Frac(s1, 2 * w)
        [] op = "moment" -> Frac(SumSeq(Map(xs, LAMBDA x : Pow(Wt(x[2]) * X2(x[2]), k))), Pow(2, k) * w)
        [] op \in {"var", "std2"} -> Frac(w * s2 - s1 * s1, 4 * w * (w - k))

(* integers are summed and multiplied in 64 bits *)
Wrap64(dt, v) == IF IntT(dt) /\ (IsW(v) \/ UnsignedT(dt)) THEN WrapW(v, 8, ~UnsignedT(dt)) ELSE v
(* xs: sequence of <<position, value>> without missing values *)
First(xs, Better(_, _)) ==
  FoldLeft(LAMBDA b, x : IF Better(x[2], b[2]) THEN x ELSE b, xs[1], xs)
LeafOp(op, dt, xs, init) ==
  CASE op = "count" -> Num(Len(xs))
    [] op = "count_nonzero" -> Num(Len(Filter(xs, LAMBDA x : Truthy(x[2]))))
    [] op = "sum" -> Wrap64(dt, FoldLeft(LAMBDA a, x : Plus(a, x[2]), IF dt \in {"complex64", "complex128"} THEN <<"c", 0, 0>> ELSE Num(0), xs))
    [] op = "prod" -> Wrap64(dt, FoldLeft(LAMBDA a, x : Wrap64(dt, Times(a, x[2])), IF dt \in {"complex64", "complex128"} THEN <<"c", 2, 0>> ELSE Num(1), xs))
    [] op = "any" -> Bool(AnyOf(xs, LAMBDA x : Truthy(x[2])))
    [] op = "all" -> Bool(AllOf(xs, LAMBDA x : Truthy(x[2])))
    [] op = "min" -> LET ys == IF init = None THEN xs ELSE <<<<0, init>>>> \o xs
                     IN  IF ys = <<>> THEN TopOf(dt) ELSE First(ys, Less)[2]
    [] op = "max" -> LET ys == IF init = None THEN xs ELSE <<<<0, init>>>> \o xs
                     IN  IF ys = <<>> THEN BottomOf(dt) ELSE First(ys, LAMBDA u, v : Less(v, u))[2]
    [] op \in {"mean", "moment", "var", "std2"} -> MomentOp(op, init, xs)
    [] op = "ptp" -> IF xs = <<>> THEN Num(0)
                     ELSE LET hi == First(xs, LAMBDA u, v : Less(v, u))[2]
                              lo == First(xs, Less)[2]
                          IN  AddN(hi, NegW(lo))
    [] op = "argmin" -> IF xs = <<>> THEN Num(-1) ELSE Num(First(xs, Less)[1])
    [] op = "argmax" -> IF xs = <<>> THEN Num(-1) ELSE Num(First(xs, LAMBDA u, v : Less(v, u))[1])

(* ------------------------------------------------------------- structure --- *)
(* q: [op, mask, keep, init, zero]   zero: fixed-size lists of which there are    *)
(* none at all in the array combine to an empty list (their size is lost)        *)
RECURSIVE Combine(_, _, _)
(* xs: <<position, value>> pairs, all of type T, to be combined into one value *)
Combine(q, T0, xs0) ==
  LET T == Strip(T0)
      xs == Filter(xs0, LAMBDA x : ~IsNone(x[2]))
  IN  IF T[1] = "rec"
      THEN LET cols == Tab(Len(T[5]), LAMBDA k : Combine(q, T[5][k], Map(xs, LAMBDA x : <<x[1], IF T[3] THEN x[2][2][k] ELSE x[2][3][k]>>)))
           IN  IF T[3] THEN <<"t", cols>> ELSE <<"r", T[4], cols>>
      ELSE IF IsListT(T)
      THEN LET m == IF T[1] = "reg" /\ ~(q.zero /\ xs = <<>>) THEN T[3] ELSE MaxSeq(Map(xs, LAMBDA x : Len(x[2][2])), 0)
           IN  L(Tab(m, LAMBDA j :
                   Combine(q, Elt(T), Map(Filter(xs, LAMBDA x : Len(x[2][2]) >= j), LAMBDA x : <<x[1], x[2][2][j]>>))))
      ELSE IF q.mask /\ xs = <<>> THEN None
      ELSE LeafOp(q.op, IF T[1] = "prim" THEN T[3] ELSE "float64", xs, q.init)

Positions(vs) == Tab(Len(vs), LAMBDA i : <<i - 1, vs[i]>>)

(* The list vs of elements of type T, reduced at the axis that is neg levels     *)
(* above the leaves                                                              *)
RECURSIVE Along(_, _, _, _)
Along(q, T0, vs, neg) ==
  LET T == Strip(T0) IN
  IF T[1] = "rec"
  THEN LET cols == Tab(Len(T[5]), LAMBDA k : Along(q, T[5][k], Map(vs, LAMBDA v : IF T[3] THEN v[2][k] ELSE v[3][k]), neg))
       IN  IF T[3] THEN <<"t", cols>> ELSE <<"r", T[4], cols>>
  ELSE IF MinDepth(T) + 1 = neg
  THEN LET w == Combine(q, T, Positions(vs)) IN IF q.keep THEN L(<<w>>) ELSE w
  ELSE L(Map(vs, LAMBDA v : IF IsNone(v) THEN None ELSE Along(q, Elt(T), v[2], neg)))

(* every primitive under a type, in order, for the result's type *)
RECURSIVE Leaves(_)
Leaves(T) == CASE T[1] = "prim" -> <<T[3]>>
               [] T[1] = "unk" -> <<"float64">>
               [] T[1] = "list" -> Leaves(T[3])
               [] T[1] = "reg" -> Leaves(T[4])
               [] T[1] = "opt" -> Leaves(T[2])
               [] T[1] = "cat" -> Leaves(T[3])
               [] T[1] = "rec" -> Cat(Map(T[5], Leaves))
               [] T[1] = "un" -> Cat(Map(T[2], Leaves))

ReduceAxis(T, vs, q, axis) ==
  LET lo == MinDepth(T) + 1
      hi == MaxDepth(T) + 1
      neg == IF axis < 0 THEN -axis ELSE hi - axis
  IN  IF lo # hi /\ axis >= 0 THEN Err
      ELSE IF neg < 1 \/ neg > lo THEN Err
      ELSE Along(q, T, vs, neg)

(* axis=None: all the values, whatever the structure *)
RECURSIVE Flat(_)
Flat(v) == CASE v[1] = "none" -> <<>>
             [] v[1] \in {"l", "t"} -> Cat(Map(v[2], Flat))
             [] v[1] = "r" -> Cat(Map(v[3], Flat))
             [] OTHER -> <<v>>
ReduceAll(T, vs, q) ==
  LET xs == Positions(Flat(L(vs)))
      dt == LET ls == Leaves(T) IN IF Len(ls) = 0 THEN "float64" ELSE ls[1]
  IN  IF xs = <<>> /\ q.op \in {"min", "max", "argmin", "argmax"} THEN (IF q.op \in {"min", "max"} THEN None ELSE Err)
      ELSE LeafOp(q.op, dt, xs, q.init)
(* values and weights of the same structure, paired leaf by leaf *)
RECURSIVE Pair(_, _)
Pair(v, w) == CASE v[1] = "none" -> v
                [] v[1] = "l" -> L(Tab(Len(v[2]), LAMBDA i : Pair(v[2][i], w[2][i])))
                [] OTHER -> <<"p", v, w>>
==============================================================================