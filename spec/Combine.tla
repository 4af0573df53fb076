-------------------------------- MODULE Combine -------------------------------
(* Cartesian products of the lists of several arrays.                            *)
EXTENDS Struct

RECURSIVE Build(_, _, _)
(* lists: the lists still to combine; nested: whether each is grouped *)
Build(q, lists, sofar) ==
  IF Len(sofar) = Len(lists) THEN <<AsTuple(q.keys, sofar)>>
  ELSE LET i == Len(sofar) + 1
           parts == Tab(Len(lists[i]), LAMBDA j :
                      LET sub == Build(q, lists, Append(sofar, IF q.arg THEN Num(j - 1) ELSE lists[i][j]))
                      IN  IF q.nested[i] THEN <<L(sub)>> ELSE sub)
       IN  Cat(parts)
RECURSIVE CartAt(_, _, _)
CartAt(q, vss, k) ==
  IF k = 0 THEN L(Build(q, vss, <<>>))
  ELSE IF \E i \in 2..Len(vss) : Len(vss[i]) # Len(vss[1]) THEN Err
  ELSE L(Tab(Len(vss[1]), LAMBDA j :
         IF \E i \in 1..Len(vss) : IsNone(vss[i][j]) THEN None
         ELSE CartAt(q, Map(vss, LAMBDA vs : vs[j][2]), k - 1)))
(* the name of the records at list level n below the top *)
RECURSIVE NameAt(_)
NameAt(T0) == LET T == Strip(T0) IN
              IF T[1] = "rec" THEN T[2] ELSE IF IsListT(T) THEN NameAt(Elt(T)) ELSE "?"
==============================================================================
