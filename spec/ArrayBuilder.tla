---------------------------- MODULE ArrayBuilder ----------------------------
(* The append-only array builder as a state machine.                            *)
(*                                                                               *)
(* State b:  shape  what has been discovered about the type so far               *)
(*           vals   the completed top-level values                               *)
(*           stack  the lists, tuples and records that are open, outermost first *)
(*                                                                               *)
(* A shape node: opt (a null was seen here), ks (the kinds seen here, in order   *)
(* of appearance).  A kind:                                                      *)
(*   <<"bool">> <<"num",rank>> <<"str">> <<"bytes">> <<"dt",unit>>               *)
(*   <<"list",node>> <<"tup",n,nodes,len>> <<"rec",name,keys,nodes,len>>         *)
(*   <<"app">>   values copied from existing arrays                              *)
(* rank 1: integers, 2: reals, 3: complex numbers.                               *)
(* A raw value: <<"none">> or <<"k",kind number,payload>>.                       *)
EXTENDS Types

Node0 == [opt |-> FALSE, ks |-> <<>>]
Builder0 == [shape |-> Node0, vals |-> <<>>, stack |-> <<>>]

(* ------------------------------------------------- shapes, by path ------- *)
(* A path is a sequence of <<kind number, child number>>.                       *)
Kids(k) == CASE k[1] = "list" -> <<k[2]>>
             [] k[1] = "tup" -> k[3]
             [] k[1] = "rec" -> k[4]
WithKids(k, ns) == CASE k[1] = "list" -> <<"list", ns[1]>>
                     [] k[1] = "tup" -> <<"tup", k[2], ns, k[4]>>
                     [] k[1] = "rec" -> <<"rec", k[2], k[3], ns, k[5]>>
RECURSIVE NodeAt(_, _)
NodeAt(nd, p) == IF p = <<>> THEN nd ELSE NodeAt(Kids(nd.ks[p[1][1]])[p[1][2]], Tail(p))
RECURSIVE PutNode(_, _, _)
PutNode(nd, p, new) ==
  IF p = <<>> THEN new
  ELSE LET e == p[1][1]
           ch == p[1][2]
           kids == Kids(nd.ks[e])
       IN  [nd EXCEPT !.ks[e] = WithKids(nd.ks[e], [kids EXCEPT ![ch] = PutNode(kids[ch], Tail(p), new)])]
KindAt(b, f) == NodeAt(b.shape, f.path).ks[f.e]
PutKind(b, f, k) == LET nd == NodeAt(b.shape, f.path)
                    IN  [b EXCEPT !.shape = PutNode(b.shape, f.path, [nd EXCEPT !.ks[f.e] = k])]

(* ---------------------------------------------- where a value would go --- *)
Top(b) == b.stack[Len(b.stack)]
(* <<>> when nothing can be put here: after begin_record without field, etc.    *)
CanPut(b) == Len(b.stack) = 0 \/ Top(b).cur > 0
Pos(b) == IF Len(b.stack) = 0 THEN <<>>
          ELSE LET f == Top(b) IN Append(f.path, <<f.e, f.cur>>)
PutVal(b, v) ==
  IF Len(b.stack) = 0 THEN [b EXCEPT !.vals = Append(@, v)]
  ELSE LET d == Len(b.stack)
           f == b.stack[d]
       IN  [b EXCEPT !.stack[d].got[f.cur] = Append(@, v)]

(* ------------------------------------------------------------ kinds ------ *)
SameKind(k, q) ==
  /\ k[1] = q[1]
  /\ CASE k[1] = "dt" -> k[2] = q[2]
       [] k[1] = "tup" -> k[2] = q[2]
       [] k[1] = "rec" -> k[2] = q[2]
       [] OTHER -> TRUE
FindKind(nd, k) == LET ok == {i \in 1..Len(nd.ks) : SameKind(nd.ks[i], k)}
                   IN  IF ok = {} THEN 0 ELSE CHOOSE i \in ok : \A j \in ok : i <= j
(* The node with kind k among its kinds *)
Join(nd, k) ==
  LET i == FindKind(nd, k)
  IN  IF i = 0 THEN [nd EXCEPT !.ks = Append(@, k)]
      ELSE IF k[1] = "num" THEN [nd EXCEPT !.ks[i] = <<"num", Max2(@[2], k[2])>>]
      ELSE nd
Learn(b, k) == [b EXCEPT !.shape = PutNode(b.shape, Pos(b), Join(NodeAt(b.shape, Pos(b)), k))]
KindNo(b, k) == FindKind(NodeAt(b.shape, Pos(b)), k)

(* ------------------------------------------------------- transitions ----- *)
Fail == [err |-> TRUE]
IsFail(b) == Has(b, "err")

PutScalar(b, k, v) ==
  IF ~CanPut(b) THEN Fail
  ELSE LET b2 == Learn(b, k) IN PutVal(b2, <<"k", KindNo(b2, k), v>>)

PutNull(b) ==
  IF ~CanPut(b) THEN Fail
  ELSE LET nd == NodeAt(b.shape, Pos(b))
       IN  PutVal([b EXCEPT !.shape = PutNode(b.shape, Pos(b), [nd EXCEPT !.opt = TRUE])], None)

Open(b, k, n, cur) ==
  IF ~CanPut(b) THEN Fail
  ELSE LET b2 == Learn(b, k)
           e == KindNo(b2, k)
           m == IF k[1] = "rec" THEN Len(NodeAt(b2.shape, Pos(b)).ks[e][3]) ELSE n
       IN  [b2 EXCEPT !.stack = Append(@, [k |-> k[1], path |-> Pos(b), e |-> e, cur |-> cur, got |-> Rep(m, <<>>)])]

Pop(b) == [b EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
IsTop(b, k) == Len(b.stack) > 0 /\ Top(b).k = k

CloseList(b) == IF ~IsTop(b, "list") THEN Fail
                ELSE LET f == Top(b) IN PutVal(Pop(b), <<"k", f.e, f.got[1]>>)

(* Closing a record or tuple: what was not given is missing. *)
CloseFields(b, kind) ==
  IF ~IsTop(b, kind) THEN Fail
  ELSE LET f == Top(b)
           k == KindAt(b, f)
           kids == Kids(k)
           filled == Tab(Len(kids), LAMBDA i : IF f.got[i] = <<>> THEN [kids[i] EXCEPT !.opt = TRUE] ELSE kids[i])
           vs == Tab(Len(kids), LAMBDA i : IF f.got[i] = <<>> THEN None ELSE f.got[i][1])
           k2 == WithKids(k, filled)
           k3 == IF kind = "tup" THEN [k2 EXCEPT ![4] = @ + 1] ELSE [k2 EXCEPT ![5] = @ + 1]
       IN  IF \E i \in 1..Len(kids) : Len(f.got[i]) > 1 THEN Fail
           ELSE PutVal(Pop(PutKind(b, f, k3)), <<"k", f.e, vs>>)

Field(b, key) ==
  IF ~IsTop(b, "rec") THEN Fail
  ELSE LET d == Len(b.stack)
           f == Top(b)
           k == KindAt(b, f)
           j == IndexIn(k[3], key)
       IN  IF j > 0 THEN [b EXCEPT !.stack[d].cur = j]
           ELSE LET new == [Node0 EXCEPT !.opt = k[5] > 0]      \* earlier records did not have it
                    b2 == PutKind(b, f, <<"rec", k[2], Append(k[3], key), Append(k[4], new), k[5]>>)
                IN  [b2 EXCEPT !.stack[d].cur = Len(k[3]) + 1, !.stack[d].got = Append(@, <<>>)]

Index(b, i) ==
  IF ~IsTop(b, "tup") THEN Fail
  ELSE LET d == Len(b.stack) IN
       IF i < 0 \/ i >= Len(Top(b).got) THEN Fail
       ELSE [b EXCEPT !.stack[d].cur = i + 1]

(* Clearing keeps what is known about the type but no values. *)
RECURSIVE Emptied(_)
Emptied(nd) ==
  [nd EXCEPT !.ks = Map(@, LAMBDA k :
     CASE k[1] = "list" -> <<"list", Emptied(k[2])>>
       [] k[1] = "tup" -> <<"tup", k[2], Map(k[3], Emptied), 0>>
       [] k[1] = "rec" -> <<"rec", k[2], k[3], Map(k[4], Emptied), 0>>
       [] OTHER -> k)]

(* A command x: its name in x.k, its argument in x.v. *)
Step(b, x) ==
  CASE x.k = "null" -> PutNull(b)
    [] x.k = "bool" -> PutScalar(b, <<"bool">>, x.v)
    [] x.k = "int" -> PutScalar(b, <<"num", 1>>, x.v)
    [] x.k = "real" -> PutScalar(b, <<"num", 2>>, x.v)
    [] x.k = "cplx" -> PutScalar(b, <<"num", 3>>, x.v)
    [] x.k = "str" -> PutScalar(b, <<"str">>, x.v)
    [] x.k = "bytes" -> PutScalar(b, <<"bytes">>, x.v)
    [] x.k = "dt" -> PutScalar(b, <<"dt", x.u>>, x.v)
    [] x.k = "app" -> PutScalar(b, <<"app">>, x.v)
    [] x.k = "list" -> Open(b, <<"list", Node0>>, 1, 1)
    [] x.k = "endlist" -> CloseList(b)
    [] x.k = "tup" -> Open(b, <<"tup", x.n, Rep(x.n, Node0), 0>>, x.n, 0)
    [] x.k = "index" -> Index(b, x.n)
    [] x.k = "endtup" -> CloseFields(b, "tup")
    [] x.k = "rec" -> Open(b, <<"rec", x.name, <<>>, <<>>, 0>>, 0, 0)
    [] x.k = "field" -> Field(b, x.f)
    [] x.k = "endrec" -> CloseFields(b, "rec")
    [] x.k = "clear" -> [shape |-> Emptied(b.shape), vals |-> <<>>, stack |-> <<>>]

(* ------------------------------------------------------- observation ----- *)
RECURSIVE Norm(_, _)
(* A raw value under everything that has been learned since *)
Norm(v, nd) ==
  IF v[1] = "none" THEN None
  ELSE LET k == nd.ks[v[2]]
           x == v[3]
       IN  CASE k[1] = "num" -> IF k[2] = 3 /\ x[1] = "n" THEN <<"c", x[2], 0>> ELSE x
             [] k[1] = "list" -> L(Map(x, LAMBDA y : Norm(y, k[2])))
             [] k[1] = "tup" -> <<"t", Tab(k[2], LAMBDA i : Norm(x[i], k[3][i]))>>
             [] k[1] = "rec" -> <<"r", k[3], Tab(Len(k[3]), LAMBDA i : IF i > Len(x) THEN None ELSE Norm(x[i], k[4][i]))>>
             [] OTHER -> x
Snapshot(b) == Map(b.vals, LAMBDA v : Norm(v, b.shape))

RECURSIVE ShapeType(_), KindType(_)
KindType(k) ==
  CASE k[1] = "bool" -> <<"prim", "", "bool">>
    [] k[1] = "num" -> <<"prim", "", <<"int64", "float64", "complex128">>[k[2]]>>
    [] k[1] = "str" -> <<"list", "string", <<"prim", "char", "uint8">>>>
    [] k[1] = "bytes" -> <<"list", "bytestring", <<"prim", "byte", "uint8">>>>
    [] k[1] = "dt" -> <<"prim", "", k[2]>>
    [] k[1] = "list" -> <<"list", "", ShapeType(k[2])>>
    [] k[1] = "tup" -> <<"rec", "", TRUE, Tab(k[2], LAMBDA i : ToString(i - 1)), Map(k[3], ShapeType)>>
    [] k[1] = "rec" -> <<"rec", k[2], FALSE, k[3], Map(k[4], ShapeType)>>
ShapeType(nd) ==
  LET T == IF Len(nd.ks) = 0 THEN <<"unk">>
           ELSE IF Len(nd.ks) = 1 THEN KindType(nd.ks[1])
           ELSE <<"un", Map(nd.ks, KindType)>>
  IN  IF nd.opt THEN <<"opt", T>> ELSE T
=============================================================================
