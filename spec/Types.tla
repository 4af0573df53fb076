-------------------------------- MODULE Types ---------------------------------
(* Questions about types (see Layout.tla for their representation).              *)
EXTENDS Layout

IsStr(T) == T[1] \in {"list", "reg"} /\ T[2] \in {"string", "bytestring"}
IsListT(T) == T[1] \in {"list", "reg"} /\ ~IsStr(T)
Elt(T) == IF T[1] = "list" THEN T[3] ELSE T[4]
IsRecT(T) == T[1] = "rec"
RECURSIVE Strip(_)
Strip(T) == IF T[1] = "opt" THEN Strip(T[2]) ELSE IF T[1] = "cat" THEN Strip(T[3]) ELSE T
HasOpt(T) == T[1] = "opt" \/ (T[1] = "cat" /\ T[3][1] = "opt")

(* How many nested list dimensions lie below an element of type T: fewest, most *)
RECURSIVE MinDepth(_), MaxDepth(_)
MinDepth(T) ==
  LET S == Strip(T) IN
  IF IsListT(S) THEN 1 + MinDepth(Elt(S))
  ELSE IF S[1] = "rec" THEN (IF Len(S[5]) = 0 THEN 0 ELSE MinSeq(Map(S[5], MinDepth), 99))
  ELSE IF S[1] = "un" THEN MinSeq(Map(S[2], MinDepth), 99)
  ELSE 0
MaxDepth(T) ==
  LET S == Strip(T) IN
  IF IsListT(S) THEN 1 + MaxDepth(Elt(S))
  ELSE IF S[1] = "rec" THEN MaxSeq(Map(S[5], MaxDepth), 0)
  ELSE IF S[1] = "un" THEN MaxSeq(Map(S[2], MaxDepth), 0)
  ELSE 0

Err == <<"err">>
RECURSIVE HasErr(_)
HasErr(v) == \/ v[1] = "err"
             \/ v[1] \in {"l", "t"} /\ \E i \in 1..Len(v[2]) : HasErr(v[2][i])
             \/ v[1] = "r" /\ \E i \in 1..Len(v[3]) : HasErr(v[3][i])

(* What a recorded outcome denotes: one value *)
Outcome(o) ==
  CASE o.k = "err" -> Err
    [] o.k = "val" -> o.v
    [] o.k = "arr" -> IF Valid(o.n) THEN L(Denote(o.n)) ELSE <<"invalid">>
    [] o.k = "row" -> IF Valid(o.n) THEN Denote(o.n)[o.at + 1] ELSE <<"invalid">>
==============================================================================
