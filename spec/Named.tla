-------------------------------- MODULE Named ---------------------------------
(* Data whose name gives them a meaning: strings and bytestrings are equal when  *)
(* their bytes are, categories are the values they stand for, and the records    *)
(* and lists of a name are instances of the classes registered for that name,    *)
(* with the functions registered for it.                                         *)
EXTENDS Broadcast
(* ---- categories ---- *)
RECURSIVE IsCat(_), Categorized(_), Plain(_)
(* categories at the innermost level of lists *)
IsCat(T) == CASE T[1] = "cat" -> TRUE
              [] T[1] = "opt" -> IsCat(T[2])
              [] IsListT(T) -> IsCat(Elt(T))
              [] OTHER -> FALSE
Rewrap(T, E) == IF T[1] = "list" THEN <<"list", T[2], E>> ELSE <<"reg", T[2], T[3], E>>
Categorized(T) == CASE T[1] = "opt" -> (LET S == Categorized(T[2]) IN IF S[1] = "opt" THEN S ELSE <<"opt", S>>)
                    [] IsListT(T) -> Rewrap(T, Categorized(Elt(T)))
                    [] OTHER -> <<"cat", "categorical", T>>
Plain(T) == CASE T[1] = "opt" -> (LET S == Plain(T[2]) IN IF S[1] = "opt" THEN S ELSE <<"opt", S>>)
              [] T[1] = "cat" -> Plain(T[3])
              [] IsListT(T) -> Rewrap(T, Plain(Elt(T)))
              [] OTHER -> T
RECURSIVE LeafVals(_, _)
LeafVals(T, v) == IF IsNone(v) THEN {} ELSE
                  CASE T[1] = "opt" -> LeafVals(T[2], v)
                    [] IsListT(T) -> UNION {LeafVals(Elt(T), v[2][i]) : i \in 1..Len(v[2])}
                    [] OTHER -> {v}
(* ---- equality of strings, bytes and categories, matched up by broadcasting --- *)
(* ---- classes by name ---- *)
RECURSIVE DeepName(_)
(* the name of the records at the innermost level of lists *)
DeepName(T) == CASE T[1] = "opt" -> DeepName(T[2])
                 [] T[1] = "rec" -> T[2]
                 [] IsListT(T) -> DeepName(Elt(T))
                 [] OTHER -> ""
(* (if items may be missing, only the class for any depth of lists applies)       *)
(* an array of items of type T; reg: the (kind, name) pairs with a class         *)
ArrayClass(T, reg) == LET S == T
                          ls == IF IsListT(S) THEN S[2] ELSE ""
                          rs == IF S[1] = "rec" THEN S[2] ELSE ""
                      IN  IF ls # "" /\ <<"list", ls>> \in reg THEN <<"list", ls>>
                          ELSE IF rs # "" /\ <<"flat", rs>> \in reg THEN <<"flat", rs>>
                          ELSE IF DeepName(T) # "" /\ <<"deep", DeepName(T)>> \in reg THEN <<"deep", DeepName(T)>>
                          ELSE <<"none", "">>
RecordClass(T, reg) == IF T[2] # "" /\ <<"item", T[2]>> \in reg THEN <<"item", T[2]>> ELSE <<"none", "">>
==============================================================================
