------------------------------ MODULE Validity --------------------------------
(* When is a tree of buffers an array?                                           *)
(*                                                                               *)
(* Broken(nd): some position that the layout refers to is not there, or a node   *)
(* is not what its parameters or its place promise (strings are lists of chars,  *)
(* chars are bytes inside of strings, categories are distinct, options and       *)
(* indirections are not directly nested, unions are not directly nested).        *)
(* Sound(nd): nothing of the sort anywhere, and not even an empty list that      *)
(* lies outside of its content. Between the two (empty lists outside of their    *)
(* content) the library may answer either way.                                   *)
EXTENDS TraceBase
Indirect == {"ix", "io", "bm", "bit", "um"}
Text == {"string", "bytestring"}
Chars(p) == IF p = "string" THEN "char" ELSE "byte"

BadList(s, e, n) == s # e /\ (s > e \/ s < 0 \/ e > n)
OddList(s, e, n) == s = e /\ (s < 0 \/ s > n)

BadText(nd) ==
  /\ Param(nd) \in Text
  /\ \/ ~IsListNode(nd)
     \/ /\ IsListNode(nd)
        /\ \/ nd.x.c # "np"
           \/ Param(nd.x) # Chars(Param(nd))
           \/ nd.x.c = "np" /\ (nd.x.dt # "uint8" \/ Len(nd.x.sh) # 1)

(* the positions of one node *)
BadHere(nd) ==
  CASE nd.c = "np" -> Len(nd.sh) = 0
    [] nd.c = "em" -> FALSE
    [] nd.c = "lo" -> \E k \in 1..(Len(nd.o) - 1) : BadList(nd.o[k], nd.o[k+1], LenOf(nd.x))
    [] nd.c = "l" -> Len(nd.e) < Len(nd.s) \/ \E k \in 1..Len(nd.s) : BadList(nd.s[k], nd.e[k], LenOf(nd.x))
    [] nd.c = "reg" -> nd.n < 0
    [] nd.c = "ix" -> \E k \in 1..Len(nd.i) : nd.i[k] < 0 \/ nd.i[k] >= LenOf(nd.x)
    [] nd.c = "io" -> \E k \in 1..Len(nd.i) : nd.i[k] >= LenOf(nd.x)
    [] nd.c = "bm" -> LenOf(nd.x) < Len(nd.m)
    [] nd.c = "bit" -> LenOf(nd.x) < nd.len \/ 8 * Len(nd.m) < nd.len
    [] nd.c = "um" -> FALSE
    [] nd.c = "rec" -> \E k \in 1..Len(nd.xs) : LenOf(nd.xs[k]) < nd.len
    [] nd.c = "un" -> Len(nd.i) < Len(nd.t) \/ \E k \in 1..Len(nd.t) :
                         \/ nd.t[k] < 0 \/ nd.t[k] >= Len(nd.xs)
                         \/ nd.i[k] < 0 \/ (nd.t[k] < Len(nd.xs) /\ nd.t[k] >= 0 /\ nd.i[k] >= LenOf(nd.xs[nd.t[k] + 1]))
OddHere(nd) ==
  CASE nd.c = "lo" -> \E k \in 1..(Len(nd.o) - 1) : OddList(nd.o[k], nd.o[k+1], LenOf(nd.x))
    [] nd.c = "l" -> Len(nd.s) <= Len(nd.e) /\ \E k \in 1..Len(nd.s) : OddList(nd.s[k], nd.e[k], LenOf(nd.x))
    [] OTHER -> FALSE
(* what a node may not directly contain *)
BadNest(nd) == \/ nd.c \in Indirect /\ nd.x.c \in Indirect
               \/ nd.c = "un" /\ \E k \in 1..Len(nd.xs) : nd.xs[k].c = "un"
Kids(nd) == IF nd.c \in {"rec", "un", "part"} THEN nd.xs
            ELSE IF nd.c \in {"np", "em"} \/ Param(nd) \in Text THEN <<>> ELSE <<nd.x>>
RECURSIVE Broken(_)
RECURSIVE Odd(_)
(* categories: decided only where they are numbers or strings that are themselves sound *)
BadCat(nd) == Param(nd) = "categorical" /\
              (nd.c \notin {"ix", "io"} \/ (~Broken(nd.x) /\ LET vs == Denote(nd.x) IN \E i, j \in 1..Len(vs) : i < j /\ vs[i] = vs[j]))
Broken(nd) == IF nd.c = "part" THEN \E k \in 1..Len(nd.xs) : Broken(nd.xs[k]) ELSE
  \/ BadText(nd)
  \/ Param(nd) \in {"char", "byte"}
  \/ BadHere(nd) \/ BadNest(nd)
  \/ \E k \in 1..Len(Kids(nd)) : Broken(Kids(nd)[k])
  \/ BadCat(nd)
Odd(nd) == (nd.c # "part" /\ OddHere(nd)) \/ \E k \in 1..Len(Kids(nd)) : Odd(Kids(nd)[k])
Sound(nd) == ~Broken(nd) /\ ~Odd(nd)
==============================================================================
