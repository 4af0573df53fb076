-------------------------------- MODULE Struct --------------------------------
(* Operations that change the structure of arrays at a chosen axis.               *)
(* q is the operation: [op |-> name, ...arguments].  ListOp says what happens to   *)
(* one list at the axis; Walk applies it at the axis, through lists and records,   *)
(* and leaves missing values missing.                                              *)
EXTENDS Sort

Bad(v) == HasErr(v)
Idx0(n) == Tab(n, LAMBDA i : Num(i - 1))

(* ------------------------------------------------------------ combinations -- *)
RECURSIVE Choose(_, _, _, _)
(* increasing index sequences of length n out of lo..m (repl: non-decreasing), in order *)
Choose(n, lo, m, repl) ==
  IF n = 0 THEN <<<<>>>>
  ELSE Cat(Tab(IF m >= lo THEN m - lo + 1 ELSE 0, LAMBDA d :
             LET i == lo + d - 1
             IN  Map(Choose(n - 1, IF repl THEN i ELSE i + 1, m, repl), LAMBDA t : <<i>> \o t)))
AsTuple(keys, vs) == IF keys = <<>> THEN <<"t", vs>> ELSE <<"r", keys, vs>>
Combos(q, vs) == Map(Choose(q.n, 1, Len(vs), q.repl),
                     LAMBDA t : AsTuple(q.keys, Map(t, LAMBDA i : IF q.arg THEN Num(i - 1) ELSE vs[i])))

(* ---------------------------------------------------------------- one list -- *)
Pad(vs, n, clip) == (IF clip THEN SubSeq(vs, 1, Min2(n, Len(vs))) ELSE vs) \o Rep(Max2(0, n - Len(vs)), None)
(* join the lists in vs *)
Join(vs) == Cat(Map(vs, LAMBDA v : IF IsNone(v) THEN <<>> ELSE v[2]))
ListOp(q, T, vs) ==
  CASE q.op = "num" -> Num(Len(vs))
    [] q.op = "local_index" -> L(Idx0(Len(vs)))
    [] q.op = "pad_none" -> L(Pad(vs, q.n, q.clip))
    [] q.op = "firsts" -> IF vs = <<>> THEN None ELSE vs[1]
    [] q.op = "flatten" -> L(Join(vs))
    [] q.op = "dropnone" -> L(Filter(vs, LAMBDA v : ~IsNone(v)))
    [] q.op = "is_none" -> L(Map(vs, LAMBDA v : Bool(IsNone(v))))
    [] q.op = "combinations" -> L(Combos(q, vs))
    [] q.op = "sort" -> L(SortCol(q, T, vs))
    [] q.op = "same" -> L(vs)
    [] OTHER -> Err

(* ----------------------------------------------------------- at an axis ------ *)
Field(T, v, k) == IF T[3] THEN v[2][k] ELSE v[3][k]
Row(T, vs) == IF T[3] THEN <<"t", vs>> ELSE <<"r", T[4], vs>>
RECURSIVE TooDeep(_, _)
(* some branch of the type has no dimension k *)
TooDeep(T0, k) ==
  LET T == Strip(T0) IN
  IF k = 0 \/ T[1] = "unk" THEN FALSE
  ELSE IF T[1] = "rec" THEN AnyOf(T[5], LAMBDA t : TooDeep(t, k))
  ELSE IF IsListT(T) THEN TooDeep(Elt(T), k - 1) ELSE TRUE
RECURSIVE RecAt(_, _)
(* the elements at level k are records *)
RecAt(T0, k) == LET T == Strip(T0) IN
                IF T[1] = "rec" THEN k = 0 \/ AnyOf(T[5], LAMBDA t : RecAt(t, k)) ELSE k > 0 /\ IsListT(T) /\ RecAt(Elt(T), k - 1)
RECURSIVE Walk(_, _, _, _)
Walk(q, T0, vs, k) ==
  LET T == Strip(T0) IN
  IF k = 0 THEN ListOp(q, T0, vs)
  ELSE IF T[1] = "rec"
  THEN LET ok(v) == ~IsNone(v)
           some == Filter(vs, ok)
           cols == Tab(Len(T[5]), LAMBDA j : Walk(q, T[5][j], Map(some, LAMBDA v : Field(T, v, j)), k))
           at(i) == Len(Filter(SubSeq(vs, 1, i), ok))
       IN  IF AnyOf(cols, Bad) THEN Err
           ELSE L(Tab(Len(vs), LAMBDA i : IF IsNone(vs[i]) THEN None ELSE Row(T, Map(cols, LAMBDA c : c[2][at(i)]))))
  ELSE IF ~IsListT(T) THEN Err
  ELSE LET ws == Map(vs, LAMBDA v : IF IsNone(v) THEN None ELSE Walk(q, Elt(T), v[2], k - 1))
       IN  IF MaxDepth(T) < k THEN Err ELSE L(ws)

(* negative axes count from the innermost dimension *)
Axis(T, axis) == IF axis >= 0 THEN axis ELSE MaxDepth(T) + 1 + axis

(* every leaf, in order, missing ones left out: what flatten with axis=None gives *)
RECURSIVE Leafs(_)
Leafs(v) == CASE v[1] = "l" -> Cat(Map(v[2], Leafs))
              [] v[1] = "none" -> <<>>
              [] OTHER -> <<v>>
RECURSIVE ColLeafs(_, _)
(* records: field after field *)
ColLeafs(T0, vs0) ==
  LET T == Strip(T0)
      vs == Filter(vs0, LAMBDA v : ~IsNone(v))
  IN  IF T[1] = "rec" THEN Cat(Tab(Len(T[5]), LAMBDA j : ColLeafs(T[5][j], Map(vs, LAMBDA v : Field(T, v, j)))))
      ELSE IF IsListT(T) THEN ColLeafs(Elt(T), Join(vs))
      ELSE vs

(* ------------------------------------------------------------- unflatten ----- *)
RECURSIVE Split(_, _)
(* counts: numbers or missing *)
Split(vs, counts) ==
  IF counts = <<>> THEN <<>>
  ELSE LET n == IF IsNone(counts[1]) THEN 0 ELSE counts[1][2] \div 2
       IN  <<IF IsNone(counts[1]) THEN None ELSE L(SubSeq(vs, 1, n))>> \o Split(SubSeq(vs, n + 1, Len(vs)), Tail(counts))
Total(counts) == SumSeq(Map(counts, LAMBDA x : IF IsNone(x) THEN 0 ELSE x[2] \div 2))
Unflatten0(vs, counts) == IF Total(counts) = Len(vs) THEN L(Split(vs, counts)) ELSE Err
RECURSIVE Take(_, _, _)
(* how many counts, from position i, fill exactly n items; -1: they do not *)
Take(counts, i, n) == IF n = 0 THEN 0 ELSE IF n < 0 \/ i > Len(counts) THEN -1
                      ELSE LET t == Take(counts, i + 1, n - counts[i][2] \div 2) IN IF t < 0 THEN -1 ELSE t + 1
RECURSIVE Unflat1(_, _, _)
Unflat1(vs, counts, i) ==
  IF vs = <<>> THEN <<>>
  ELSE IF IsNone(vs[1]) THEN <<None>> \o Unflat1(Tail(vs), counts, i)
  ELSE LET n == Take(counts, i, Len(vs[1][2]))
       IN  IF n < 0 THEN <<Err>>
           ELSE <<L(Split(vs[1][2], SubSeq(counts, i, i + n - 1)))>> \o Unflat1(Tail(vs), counts, i + n)
Unflatten1(vs, counts) ==
  LET t == Total(counts)
      m == SumSeq(Map(vs, LAMBDA v : IF IsNone(v) THEN 0 ELSE Len(v[2])))
  IN  IF t # m THEN Err ELSE L(Unflat1(vs, counts, 1))

(* ------------------------------------------------------------ run lengths ---- *)
RECURSIVE Runs(_, _, _)
Runs(vs, i, n) == IF i > Len(vs) THEN (IF n = 0 THEN <<>> ELSE <<Num(n)>>)
                  ELSE IF n = 0 \/ vs[i] = vs[i - 1] THEN Runs(vs, i + 1, n + 1)
                  ELSE <<Num(n)>> \o Runs(vs, i + 1, 1)
RunLengths(T0, vs) ==
  LET T == Strip(T0)
  IN  IF IsListT(T) THEN L(Map(vs, LAMBDA v : L(Runs(v[2], 1, 0)))) ELSE L(Runs(vs, 1, 0))

(* --------------------------------------------------------------- regular ----- *)
RECURSIVE SameLen(_, _, _, _)
(* all the lists at level k have one length (n; -1: none seen yet); gives that length or -2 *)
SameLen(T, vs, k, n) ==
  IF vs = <<>> THEN n
  ELSE IF IsNone(vs[1]) THEN SameLen(T, Tail(vs), k, n)
  ELSE LET m == IF k > 1 THEN SameLen(T, vs[1][2], k - 1, n)
                ELSE IF n \in {-1, Len(vs[1][2])} THEN Len(vs[1][2]) ELSE -2
       IN  IF m = -2 THEN -2 ELSE SameLen(T, Tail(vs), k, m)
RECURSIVE RetypeAt(_, _, _)
(* the type with the list dimension k turned into f: "list" or the size *)
RetypeAt(T, k, n) ==
  IF T[1] = "opt" THEN <<"opt", RetypeAt(T[2], k, n)>>
  ELSE IF T[1] = "rec" THEN <<"rec", T[2], T[3], T[4], Map(T[5], LAMBDA t : RetypeAt(t, k, n))>>
  ELSE IF ~IsListT(T) THEN T
  ELSE IF k > 1 THEN (IF T[1] = "list" THEN <<"list", T[2], RetypeAt(T[3], k - 1, n)>> ELSE <<"reg", T[2], T[3], RetypeAt(T[4], k - 1, n)>>)
  ELSE IF n < 0 THEN <<"list", T[2], Elt(T)>> ELSE <<"reg", T[2], n, Elt(T)>>

RECURSIVE RegAt(_, _)
RegAt(T0, k) == LET T == Strip(T0) IN IsListT(T) /\ (IF k > 1 THEN RegAt(Elt(T), k - 1) ELSE T[1] = "reg")

(* ------------------------------------------------------------ leaf by leaf ---- *)
(* an integer as an integer type holds it *)
WrapTo(dt, v) == LET w == CASE dt \in {"int8", "uint8"} -> 1 [] dt \in {"int16", "uint16"} -> 2 [] dt \in {"int32", "uint32"} -> 4 [] OTHER -> 8
                 IN  WrapW(v, w, dt \in {"int8", "int16", "int32", "int64"})
RECURSIVE MapLeaf(_, _)
MapLeaf(q, v) ==
  CASE v[1] = "l" -> L(Map(v[2], LAMBDA x : MapLeaf(q, x)))
    [] v[1] = "t" -> <<"t", Map(v[2], LAMBDA x : MapLeaf(q, x))>>
    [] v[1] = "r" -> <<"r", v[2], Map(v[3], LAMBDA x : MapLeaf(q, x))>>
    [] v[1] = "none" -> (IF q.op = "fill_none" THEN q.v ELSE None)
    [] OTHER -> CASE q.op = "full_like" -> (IF v[1] \in {"s", "y"} THEN <<v[1], q.sv>> ELSE IF v[1] = "b" THEN <<"b", q.v # Num(0)>> ELSE q.v)
                  [] q.op = "bool" -> (IF v[1] \in {"s", "y"} THEN v ELSE Bool(IF v[1] = "b" THEN v[2] ELSE v # Num(0)))
                  [] q.op = "int" -> (IF v[1] = "b" THEN Num(IF v[2] THEN 1 ELSE 0)
                                      ELSE IF v[1] = "n" THEN WrapTo(q.dt, Num(IF v[2] < 0 THEN -((-v[2]) \div 2) ELSE v[2] \div 2))
                                      ELSE IF v[1] = "w" THEN WrapTo(q.dt, v) ELSE v)
                  [] q.op = "float" -> (IF v[1] = "b" THEN Num(IF v[2] THEN 1 ELSE 0) ELSE v)
                  [] q.op = "nan_to_num" -> (IF v = <<"nan">> THEN q.nan ELSE IF v = <<"inf">> THEN q.inf ELSE IF v = <<"ninf">> THEN q.ninf ELSE v)
                  [] OTHER -> v
(* True and False as 1 and 0, complex numbers on the real axis as real numbers *)
(* dates and durations in microseconds *)
Ticks == [u \in {"datetime64[s]", "datetime64[ms]", "timedelta64[s]", "timedelta64[ms]"} |->
           [u |-> IF u \in {"datetime64[s]", "datetime64[ms]"} THEN "datetime64[us]" ELSE "timedelta64[us]",
            n |-> IF u \in {"datetime64[s]", "timedelta64[s]"} THEN 1000000 ELSE 1000]]
RECURSIVE BoolAsNum(_)
BoolAsNum(v) ==
  CASE v[1] = "l" -> L(Map(v[2], BoolAsNum))
    [] v[1] = "t" -> <<"t", Map(v[2], BoolAsNum)>>
    [] v[1] = "r" -> <<"r", v[2], Map(v[3], BoolAsNum)>>
    [] v[1] = "b" -> Num(IF v[2] THEN 1 ELSE 0)
    [] v[1] = "c" /\ v[3] = 0 -> <<"n", v[2]>>
    [] v[1] = "d" /\ v[2] \in DOMAIN Ticks /\ v[3] < 2000000000 \div Ticks[v[2]].n /\ v[3] > -(2000000000 \div Ticks[v[2]].n) -> <<"d", Ticks[v[2]].u, v[3] * Ticks[v[2]].n>>
    [] OTHER -> v
RECURSIVE AnyOpt(_)
AnyOpt(T) == CASE T[1] = "opt" -> TRUE
               [] T[1] = "cat" -> AnyOpt(T[3])
               [] T[1] \in {"list", "reg"} -> AnyOpt(Elt(T))
               [] T[1] = "rec" -> AnyOf(T[5], AnyOpt)
               [] T[1] = "un" -> AnyOf(T[2], AnyOpt)
               [] OTHER -> FALSE
(* a mask applies at the level of its booleans *)
RECURSIVE MaskBy(_, _, _)
MaskBy(v, m, vw) ==
  IF IsNone(v) \/ IsNone(m) THEN None
  ELSE IF m[1] = "b" THEN (IF m[2] = vw THEN v ELSE None)
  ELSE IF Len(v[2]) # Len(m[2]) THEN Err
  ELSE L(Tab(Len(v[2]), LAMBDA i : MaskBy(v[2][i], m[2][i], vw)))
RECURSIVE SetLeaf(_, _)
SetLeaf(T, dt) ==
  CASE T[1] = "prim" -> <<"prim", T[2], dt>>
    [] T[1] = "opt" -> <<"opt", SetLeaf(T[2], dt)>>
    [] T[1] = "cat" -> <<"cat", T[2], SetLeaf(T[3], dt)>>
    [] T[1] = "list" -> IF IsStr(T) THEN T ELSE <<"list", T[2], SetLeaf(T[3], dt)>>
    [] T[1] = "reg" -> IF IsStr(T) THEN T ELSE <<"reg", T[2], T[3], SetLeaf(T[4], dt)>>
    [] T[1] = "rec" -> <<"rec", T[2], T[3], T[4], Map(T[5], LAMBDA t : SetLeaf(t, dt))>>
    [] T[1] = "un" -> <<"un", Map(T[2], LAMBDA t : SetLeaf(t, dt))>>
    [] OTHER -> T

(* the outermost missing values become empty lists, the values beside them lists of one *)
RECURSIVE Singles(_, _)
Singles(T, v) ==
  IF T[1] = "opt" THEN (IF IsNone(v) THEN L(<<>>) ELSE L(<<v>>))
  ELSE IF T[1] = "rec" THEN Row(T, Tab(Len(T[5]), LAMBDA k : Singles(T[5][k], Field(T, v, k))))
  ELSE IF IsListT(T) THEN L(Map(v[2], LAMBDA x : Singles(Elt(T), x)))
  ELSE v
(* ------------------------------------------------------------- packed -------- *)
(* no unreachable data: lists in order from zero and without gaps, no index        *)
(* except for missing values, columns exactly as long as the record array           *)
RECURSIVE Packed(_)
Packed(nd) ==
  CASE nd.c \in {"np", "em"} -> TRUE
    [] nd.c = "lo" -> nd.o[1] = 0 /\ nd.o[Len(nd.o)] = LenOf(nd.x) /\ Packed(nd.x)
    [] nd.c = "reg" -> nd.n * nd.len = LenOf(nd.x) /\ Packed(nd.x)
    [] nd.c = "io" -> (LenOf(nd.x) = Len(Filter(nd.i, LAMBDA k : k >= 0)) \/ Param(nd) = "categorical") /\ Packed(nd.x)
    [] nd.c = "bm" -> LenOf(nd.x) = Len(nd.m) /\ Packed(nd.x)
    [] nd.c = "bit" -> LenOf(nd.x) = nd.len /\ Packed(nd.x)
    [] nd.c = "um" -> Packed(nd.x)
    [] nd.c = "part" -> AllOf(nd.xs, Packed)
    [] nd.c = "ix" -> Param(nd) = "categorical" /\ Packed(nd.x)
    [] nd.c = "rec" -> (\A k \in 1..Len(nd.xs) : LenOf(nd.xs[k]) = nd.len) /\ AllOf(nd.xs, Packed)
    [] nd.c = "un" -> (\A k \in 1..Len(nd.xs) : LenOf(nd.xs[k]) = Len(Filter(nd.t, LAMBDA t : t = k - 1))) /\ AllOf(nd.xs, Packed)
    [] OTHER -> FALSE
==============================================================================
