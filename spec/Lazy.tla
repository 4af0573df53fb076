--------------------------------- MODULE Lazy ---------------------------------
(* When lazy arrays are generated: a state machine.                              *)
(*                                                                               *)
(* The columns of a program's arrays come from roots: a root has values, and is  *)
(* generated (read from where it is) when they are needed.  It may have a cache, *)
(* which keeps what was generated until it is told to forget it.  A handle is an *)
(* array of the program: a column, a table of columns, or one record of a table, *)
(* with the rows it has of them; it may hold on to generated columns by itself.  *)
(* A column that was selected by positions does not know its length (loose); to  *)
(* a table that was (picked), or is lazy as a whole, columns are added by looking *)
(* at them.                                                                      *)
EXTENDS Prelude
(* R: the roots, [vals, form (is its form known before it is generated), cached] *)
Roots(h) == {h.src[i] : i \in 1..Len(h.src)}
Row(h, R, p) == IF h.kind = "col" THEN R[h.src[1]].vals[p + 1]
                ELSE <<"r", h.names, [i \in 1..Len(h.src) |-> R[h.src[i]].vals[p + 1]]>>
Value(h, R) == IF h.kind = "one" THEN Row(h, R, h.rows[1]) ELSE <<"l", Map(h.rows, LAMBDA p : Row(h, R, p))>>
Col(h, name) == h.src[IndexIn(h.names, name)]
Kept(s) == {r \in 1..Len(s.kept) : s.kept[r]}
(* ------------------------------------------------- what a command needs ---- *)
NoForm(S, R) == {r \in S : ~R[r].form}
Loose(h) == IF h.loose THEN Roots(h) ELSE {}
Touch(s, c, R) ==
  CASE c.c = "read" -> Roots(s.hs[c.h])
    [] c.c = "at" -> IF s.hs[c.h].kind = "col" THEN Roots(s.hs[c.h]) ELSE {}
    [] c.c = "field" -> IF s.hs[c.h].kind = "one" THEN {Col(s.hs[c.h], c.name)} ELSE {}
    [] c.c \in {"range", "carry"} -> Loose(s.hs[c.h]) \union IF s.hs[c.h].kind = "col" THEN NoForm(Roots(s.hs[c.h]), R) ELSE {}
    [] c.c = "type" -> NoForm(Roots(s.hs[c.h]), R) \union Loose(s.hs[c.h])
    [] c.c = "len" -> Loose(s.hs[c.h])
    [] c.c \in {"zip", "withf", "setf"} -> Loose(s.hs[c.h]) \union Loose(s.hs[c.g])
                                          \union (IF c.c # "zip" /\ (s.hs[c.h].picked \/ s.hs[c.h].rows = <<>>) THEN Roots(s.hs[c.g]) ELSE {})
    [] OTHER -> {}
(* ------------------------------------------------------ what it results in -- *)
Cut(rows, a, b) == SubSeq(rows, Min2(a, Len(rows)) + 1, Min2(b, Len(rows)))
Made(s, c) ==
  LET h == s.hs[c.h] IN
  CASE c.c = "field" -> <<[h EXCEPT !.kind = "col", !.names = <<>>, !.src = <<Col(h, c.name)>>]>>
    [] c.c = "pick" -> <<[h EXCEPT !.names = c.names, !.src = Map(c.names, LAMBDA n : Col(h, n))]>>
    [] c.c = "range" -> <<[h EXCEPT !.rows = Cut(h.rows, c.a, c.b)]>>
    [] c.c = "carry" -> <<[h EXCEPT !.rows = Map(c.at, LAMBDA i : h.rows[i + 1]), !.loose = @ \/ h.kind = "col", !.picked = TRUE]>>
    [] c.c = "at" -> <<[h EXCEPT !.kind = "one", !.rows = <<h.rows[c.i + 1]>>]>>
    [] c.c = "zip" -> LET g == s.hs[c.g] IN <<[kind |-> "tab", names |-> c.names, src |-> h.src \o g.src, rows |-> h.rows, pin |-> h.pin \union g.pin, loose |-> h.loose \/ g.loose, picked |-> FALSE]>>
    [] c.c \in {"withf", "setf"} -> LET g == s.hs[c.g]
                                        k == IndexIn(h.names, c.name)
                                    IN  <<IF k # 0 THEN [h EXCEPT !.names = Append(RemoveAt(@, k), c.name), !.src = Append(RemoveAt(@, k), g.src[1]), !.pin = @ \union g.pin, !.loose = @ \/ g.loose \/ h.picked]
                                          ELSE [h EXCEPT !.names = Append(@, c.name), !.src = Append(@, g.src[1]), !.pin = @ \union g.pin, !.loose = @ \/ g.loose \/ h.picked]>>
    [] OTHER -> <<>>
IsValue(s, c) == (c.c = "at" /\ s.hs[c.h].kind = "col") \/ (c.c = "field" /\ s.hs[c.h].kind = "one") \/ c.c \in {"read", "len", "fields"}
Result(s, c, R) ==
  LET h == s.hs[c.h] IN
  CASE c.c = "read" -> Value(h, R)
    [] c.c = "at" -> Row(h, R, h.rows[c.i + 1])
    [] c.c = "field" -> R[Col(h, c.name)].vals[h.rows[1] + 1]
    [] c.c = "len" -> <<"n", 2 * Len(h.rows)>>
    [] c.c = "fields" -> h.names
(* columns that can be zipped or added have the same rows here: a program's own business *)
SameRows(s, c) == c.c \notin {"zip", "withf", "setf"} \/ s.hs[c.h].rows = s.hs[c.g].rows
(* ------------------------------------------------------------ transition ---- *)
(* grown: how often each root was generated during the command *)
Allowed(s, c, R, grown) ==
  \A r \in 1..Len(R) : grown[r] = 0 \/ (r \in Touch(s, c, R) /\ (~R[r].cached \/ (~s.kept[r] /\ grown[r] = 1)))
After(s, c, R, grown) ==
  LET kept == IF c.c = "forget" THEN [r \in 1..Len(R) |-> s.kept[r] /\ r \notin {c.rs[i] : i \in 1..Len(c.rs)}]
              ELSE [r \in 1..Len(R) |-> s.kept[r] \/ (grown[r] > 0 /\ R[r].cached)]
      new == IF IsValue(s, c) \/ c.c \in {"forget", "drop", "type"} THEN <<>> ELSE Made(s, c)
      pinned == Map(new, LAMBDA h : [h EXCEPT !.pin = @ \union Kept(s) \union {r \in 1..Len(R) : grown[r] > 0}])
  IN  [kept |-> kept, calls |-> [r \in 1..Len(R) |-> s.calls[r] + grown[r]],
       hs |-> IF c.c = "setf" THEN [s.hs EXCEPT ![c.h] = pinned[1]] ELSE s.hs \o pinned]
(* what a machine does that generates everything it touches and holds on to nothing *)
Grown(s, c, R) == [r \in 1..Len(R) |-> IF r \in Touch(s, c, R) /\ ~s.kept[r] THEN 1 ELSE 0]
==============================================================================
