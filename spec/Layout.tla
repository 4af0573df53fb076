-------------------------------- MODULE Layout --------------------------------
(* The physical arrays of Awkward Array and what they mean.                      *)
(*                                                                               *)
(* A layout node is a record with a class in field c:                            *)
(*   np   dt sh d|v         rectangular data (d: doubled integers; v: tagged)    *)
(*   em                     no data, unknown type                                *)
(*   lo   o x               list offsets                                         *)
(*   l    s e x             starts/stops                                         *)
(*   reg  n len x           fixed-size lists                                     *)
(*   ix   i x               indexed         io  i x   indexed, negative: missing *)
(*   bm   m vw x            byte mask       bit m vw lsb len x   bit mask        *)
(*   um   x                 option type with nothing missing                     *)
(*   rec  k tup xs len      record / tuple                                       *)
(*   un   t i xs            tagged union                                         *)
(*   part xs                partitioned                                          *)
(* Optional parameters: a (__array__), rn (__record__), op (any other, as JSON). *)
(*                                                                               *)
(* A value is a tagged tuple:                                                    *)
(*   <<"none">> <<"b",B>> <<"n",2x>> <<"nan">> <<"inf">> <<"ninf">>              *)
(*   <<"w",neg,bytes>> (wide integer)    <<"c",re,im>> <<"d",unit,n>>          *)
(*   <<"s",bytes>> <<"y",bytes>> <<"l",vs>> <<"r",keys,vs>> <<"t",vs>>           *)
EXTENDS Wide

None == <<"none">>
Num(k) == <<"n", 2 * k>>
Bool(b) == <<"b", b>>
L(vs) == <<"l", vs>>
IsNone(v) == v[1] = "none"
IsList(v) == v[1] = "l"
IsNum(v) == v[1] = "n"

Param(nd) == IF Has(nd, "a") THEN nd.a ELSE ""

(* ------------------------------------------------------------ length ------- *)
RECURSIVE LenOf(_)
LenOf(nd) ==
  CASE nd.c = "np" -> nd.sh[1]
    [] nd.c = "em" -> 0
    [] nd.c = "lo" -> Len(nd.o) - 1
    [] nd.c = "l" -> Len(nd.s)
    [] nd.c = "reg" -> nd.len
    [] nd.c \in {"ix", "io"} -> Len(nd.i)
    [] nd.c = "bm" -> Len(nd.m)
    [] nd.c = "bit" -> nd.len
    [] nd.c = "um" -> LenOf(nd.x)
    [] nd.c = "rec" -> nd.len
    [] nd.c = "un" -> Len(nd.t)
    [] nd.c = "part" -> SumSeq(Map(nd.xs, LenOf))

IsOptNode(nd) == nd.c \in {"io", "bm", "bit", "um"}
IsListNode(nd) == nd.c \in {"lo", "l", "reg"}

(* Bit i (0-based) of a byte sequence under the declared bit order *)
BitAt(bytes, i, lsb) ==
  LET byte == bytes[(i \div 8) + 1]
      k == IF lsb THEN i % 8 ELSE 7 - (i % 8)
  IN  (byte \div (2 ^ k)) % 2

(* ---------------------------------------------------------- validity ------- *)
(* What it takes for the buffers of a node to describe an array at all: every   *)
(* position that Denote dereferences is inside the buffer that it refers to,    *)
(* strings are lists of bytes, union tags are in range.                         *)
RECURSIVE Valid(_)
Valid(nd) ==
  CASE nd.c = "np" -> Len(nd.sh) >= 1 /\ \A k \in 1..Len(nd.sh) : nd.sh[k] >= 0
    [] nd.c = "em" -> TRUE
    [] nd.c = "lo" -> /\ Len(nd.o) >= 1
                      /\ nd.o[1] >= 0
                      /\ \A k \in 1..(Len(nd.o) - 1) : nd.o[k] <= nd.o[k+1]
                      /\ Len(nd.o) = 1 \/ nd.o[Len(nd.o)] <= LenOf(nd.x)
                      /\ Valid(nd.x)
    [] nd.c = "l" -> /\ Len(nd.e) >= Len(nd.s)
                     /\ \A k \in 1..Len(nd.s) :
                          nd.s[k] = nd.e[k] \/
                          (0 <= nd.s[k] /\ nd.s[k] < nd.e[k] /\ nd.e[k] <= LenOf(nd.x))
                     /\ Valid(nd.x)
    [] nd.c = "reg" -> /\ nd.n >= 0 /\ nd.len >= 0
                       /\ nd.n * nd.len <= LenOf(nd.x)
                       /\ Valid(nd.x)
    [] nd.c = "ix" -> /\ \A k \in 1..Len(nd.i) : 0 <= nd.i[k] /\ nd.i[k] < LenOf(nd.x)
                      /\ Valid(nd.x)
    [] nd.c = "io" -> /\ \A k \in 1..Len(nd.i) : nd.i[k] < LenOf(nd.x)
                      /\ Valid(nd.x)
    [] nd.c = "bm" -> Len(nd.m) <= LenOf(nd.x) /\ Valid(nd.x)
    [] nd.c = "bit" -> nd.len <= 8 * Len(nd.m) /\ nd.len <= LenOf(nd.x) /\ Valid(nd.x)
    [] nd.c = "um" -> Valid(nd.x)
    [] nd.c = "rec" -> /\ \A k \in 1..Len(nd.xs) : LenOf(nd.xs[k]) >= nd.len
                       /\ Len(nd.k) = Len(nd.xs)
                       /\ AllOf(nd.xs, Valid)
    [] nd.c = "un" -> /\ Len(nd.i) >= Len(nd.t)
                      /\ \A k \in 1..Len(nd.t) :
                           /\ 0 <= nd.t[k] /\ nd.t[k] < Len(nd.xs)
                           /\ 0 <= nd.i[k] /\ nd.i[k] < LenOf(nd.xs[nd.t[k] + 1])
                      /\ AllOf(nd.xs, Valid)
    [] nd.c = "part" -> AllOf(nd.xs, Valid)

(* --------------------------------------------------------- denotation ------ *)
Scalar(nd, k) == IF Has(nd, "v") THEN nd.v[k]
                 ELSE IF nd.dt = "bool" THEN <<"b", nd.d[k] # 0>>
                 ELSE <<"n", nd.d[k]>>

RECURSIVE Nest(_, _)
(* Nest(flat, shape): a flat sequence as nested regular lists of that shape *)
Nest(flat, sh) ==
  IF Len(sh) <= 1 THEN flat
  ELSE LET w == FoldLeft(LAMBDA a, b : a * b, 1, Tail(sh))
       IN  Tab(sh[1], LAMBDA i : L(Nest(SubSeq(flat, (i-1)*w + 1, i*w), Tail(sh))))

AsList(nd, vs) ==
  IF Param(nd) = "string" THEN <<"s", Map(vs, LAMBDA v : v[2] \div 2)>>
  ELSE IF Param(nd) = "bytestring" THEN <<"y", Map(vs, LAMBDA v : v[2] \div 2)>>
  ELSE L(vs)

RECURSIVE Denote(_)
Denote(nd) ==
  CASE nd.c = "np" -> LET n == FoldLeft(LAMBDA a, b : a * b, 1, nd.sh)
                      IN  Nest(Tab(n, LAMBDA k : Scalar(nd, k)), nd.sh)
    [] nd.c = "em" -> <<>>
    [] nd.c = "lo" -> LET xs == Denote(nd.x)
                      IN  Tab(Len(nd.o) - 1, LAMBDA k : AsList(nd, SubSeq(xs, nd.o[k] + 1, nd.o[k+1])))
    [] nd.c = "l" -> LET xs == Denote(nd.x)
                     IN  Tab(Len(nd.s), LAMBDA k : AsList(nd, IF nd.s[k] = nd.e[k] THEN <<>>
                                                              ELSE SubSeq(xs, nd.s[k] + 1, nd.e[k])))
    [] nd.c = "reg" -> LET xs == Denote(nd.x)
                       IN  Tab(nd.len, LAMBDA k : AsList(nd, SubSeq(xs, (k-1)*nd.n + 1, k*nd.n)))
    [] nd.c = "ix" -> LET xs == Denote(nd.x) IN Map(nd.i, LAMBDA k : xs[k + 1])
    [] nd.c = "io" -> LET xs == Denote(nd.x) IN Map(nd.i, LAMBDA k : IF k < 0 THEN None ELSE xs[k + 1])
    [] nd.c = "bm" -> LET xs == Denote(nd.x)
                      IN  Tab(Len(nd.m), LAMBDA k : IF (nd.m[k] # 0) = nd.vw THEN xs[k] ELSE None)
    [] nd.c = "bit" -> LET xs == Denote(nd.x)
                       IN  Tab(nd.len, LAMBDA k : IF (BitAt(nd.m, k-1, nd.lsb) = 1) = nd.vw THEN xs[k] ELSE None)
    [] nd.c = "um" -> Denote(nd.x)
    [] nd.c = "rec" -> LET xs == Map(nd.xs, Denote)
                       IN  Tab(nd.len, LAMBDA k :
                              LET row == Map(xs, LAMBDA col : col[k])
                              IN  IF nd.tup THEN <<"t", row>> ELSE <<"r", nd.k, row>>)
    [] nd.c = "un" -> LET xs == Map(nd.xs, Denote)
                      IN  Tab(Len(nd.t), LAMBDA k : xs[nd.t[k] + 1][nd.i[k] + 1])
    [] nd.c = "part" -> Cat(Map(nd.xs, Denote))

(* --------------------------------------------------------------- types ----- *)
(*  <<"prim",a,dt>> <<"unk">> <<"list",a,T>> <<"reg",a,n,T>> <<"opt",T>>         *)
(*  <<"rec",name,tup,keys,Ts>> <<"un",Ts>>       a, name: "" when absent         *)
RECURSIVE TypeOf(_)
RECURSIVE NpType(_, _, _)
NpType(nd, sh, a) == IF Len(sh) <= 1 THEN <<"prim", IF Len(nd.sh) = 1 THEN a ELSE "", nd.dt>>
                     ELSE <<"reg", "", sh[2], NpType(nd, Tail(sh), a)>>
TypeOf(nd) ==
  CASE nd.c = "np" -> NpType(nd, nd.sh, Param(nd))
    [] nd.c = "em" -> <<"unk">>
    [] nd.c \in {"lo", "l"} -> <<"list", Param(nd), TypeOf(nd.x)>>
    [] nd.c = "reg" -> <<"reg", Param(nd), nd.n, TypeOf(nd.x)>>
    [] nd.c = "ix" -> IF Param(nd) = "" THEN TypeOf(nd.x) ELSE <<"cat", Param(nd), TypeOf(nd.x)>>
    [] nd.c \in {"io", "bm", "bit", "um"} ->
         IF Param(nd) = "categorical" THEN <<"opt", <<"cat", Param(nd), TypeOf(nd.x)>>>>
         ELSE <<"opt", TypeOf(nd.x)>>
    [] nd.c = "rec" -> <<"rec", Get(nd, "rn", ""), nd.tup, nd.k, Map(nd.xs, TypeOf)>>
    [] nd.c = "un" -> <<"un", Map(nd.xs, TypeOf)>>
    [] nd.c = "part" -> TypeOf(nd.xs[1])
==============================================================================
