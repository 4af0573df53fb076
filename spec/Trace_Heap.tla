------------------------------ MODULE Trace_Heap ------------------------------
(* Recorded sessions: a table of trees of buffers, and after each step which of  *)
(* them the arrays are.  Trees of different shape are never compared with =, so  *)
(* the entries of the table are texts (the recorder writes equal trees once).    *)
EXTENDS TraceBase
H == INSTANCE Heap WITH heap <- <<>>
At(e, k) == [i \in 1..Len(e.steps[k].heap) |-> e.table[e.steps[k].heap[i]]]
RECURSIVE Bad(_, _)
Bad(e, k) == IF k > Len(e.steps) THEN {}
             ELSE LET act == e.steps[k].act
                      h == At(e, k - 1)
                      g == At(e, k)
                  IN IF H!Frame(act, h, g) THEN Bad(e, k + 1) ELSE {<<k, act.a, H!Changed(act, h, g)>>}
Check(e) == LET b == Bad(e, 2) IN IF b = {} THEN TRUE ELSE Reject(e, b)
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
