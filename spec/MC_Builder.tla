------------------------------ MODULE MC_Builder ------------------------------
(* All command sequences up to MaxLen over a small alphabet: the builder's own    *)
(* guarantees are invariants of the model, and every maximal sequence is printed  *)
(* to be replayed into the real builder.                                          *)
EXTENDS ArrayBuilder, Json, TLC
CONSTANTS MaxLen, Alphabet
VARIABLES b, h
vars == <<b, h>>
V(k, v) == [k |-> k, v |-> v]
K(k) == [k |-> k]
All == <<K("null"), V("bool", <<"b", TRUE>>), V("int", <<"n", 2>>), V("real", <<"n", 1>>), V("cplx", <<"c", 2, 4>>), V("str", <<"s", <<97>>>>),
         V("bytes", <<"y", <<98>>>>),
         K("list"), K("endlist"), [k |-> "tup", n |-> 1], [k |-> "index", n |-> 0], K("endtup"),
         [k |-> "rec", name |-> ""], [k |-> "rec", name |-> "P"], [k |-> "field", f |-> "x"], [k |-> "field", f |-> "y"], K("endrec"), K("clear")>>
Cmds == {All[i] : i \in Alphabet}
Init == b = Builder0 /\ h = <<>>
Next == \E x \in Cmds : /\ Len(h) < MaxLen
                        /\ ~IsFail(Step(b, x))
                        /\ b' = Step(b, x)
                        /\ h' = Append(h, x)
Spec == Init /\ [][Next]_vars
(* ----------------------------------------------------------- guarantees ---- *)
RECURSIVE HasType(_, _)
HasType(v, T) ==
  CASE T[1] = "unk" -> FALSE
    [] T[1] = "opt" -> v[1] = "none" \/ HasType(v, T[2])
    [] T[1] = "un" -> \E i \in 1..Len(T[2]) : HasType(v, T[2][i])
    [] v[1] = "none" -> FALSE
    [] T[1] = "prim" -> CASE T[3] = "bool" -> v[1] = "b"
                          [] T[3] = "complex128" -> v[1] = "c"
                          [] OTHER -> v[1] = "n"
    [] T[1] = "list" -> IF T[2] = "string" THEN v[1] = "s"
                        ELSE IF T[2] = "bytestring" THEN v[1] = "y"
                        ELSE v[1] = "l" /\ \A i \in 1..Len(v[2]) : HasType(v[2][i], T[3])
    [] T[1] = "rec" -> IF T[3] THEN v[1] = "t" /\ Len(v[2]) = Len(T[5]) /\ \A i \in 1..Len(v[2]) : HasType(v[2][i], T[5][i])
                       ELSE v[1] = "r" /\ v[2] = T[4] /\ \A i \in 1..Len(v[3]) : HasType(v[3][i], T[5][i])
(* every completed value has the type that the builder reports *)
Typed == LET s == Snapshot(b) IN \A i \in 1..Len(s) : HasType(s[i], ShapeType(b.shape))
(* a union never lists one kind twice *)
RECURSIVE Distinct(_)
Distinct(nd) == /\ \A i, j \in 1..Len(nd.ks) : i # j => ~SameKind(nd.ks[i], nd.ks[j])
                /\ \A i \in 1..Len(nd.ks) : nd.ks[i][1] \in {"list", "tup", "rec"} => \A c \in 1..Len(Kids(nd.ks[i])) : Distinct(Kids(nd.ks[i])[c])
Kinds == Distinct(b.shape)
(* what is open is consistent with the shape *)
Opened == \A d \in 1..Len(b.stack) : LET f == b.stack[d] IN f.k = KindAt(b, f)[1] /\ Len(f.got) <= Len(Kids(KindAt(b, f)))
(* completed values are never lost or changed; only what is known about them grows *)
Grows(v, w) == v = w \/ (v[1] = "none" /\ w[1] = "none")
RECURSIVE Refines(_, _)
Refines(v, w) ==      \* w says what v said: numbers may be wider, records may have more (missing) fields
  CASE v[1] = "n" /\ w[1] = "c" -> w = <<"c", v[2], 0>>
    [] v[1] = "l" /\ w[1] = "l" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : Refines(v[2][i], w[2][i])
    [] v[1] = "t" /\ w[1] = "t" -> Len(v[2]) = Len(w[2]) /\ \A i \in 1..Len(v[2]) : Refines(v[2][i], w[2][i])
    [] v[1] = "r" /\ w[1] = "r" -> /\ Len(v[2]) <= Len(w[2])
                                   /\ \A i \in 1..Len(v[2]) : v[2][i] = w[2][i] /\ Refines(v[3][i], w[3][i])
                                   /\ \A i \in (Len(v[2]) + 1)..Len(w[2]) : w[3][i] = None
    [] OTHER -> v = w
Append1 == [][ IF h'[Len(h')].k = "clear" THEN b'.vals = <<>>
               ELSE /\ Len(b.vals) <= Len(b'.vals) /\ Len(b'.vals) <= Len(b.vals) + 1
                    /\ \A i \in 1..Len(b.vals) : Refines(Snapshot(b)[i], Snapshot(b')[i]) ]_vars
(* print the maximal sequences *)
Shown == Len(h) = MaxLen => PrintT(<<"BEH", ToJson(h)>>)
==============================================================================
