------------------------------ MODULE Trace_Lazy ------------------------------
(* Lazy and partitioned arrays: every operation means what it means for arrays     *)
(* whose data are there, whole; so each event is judged by the operation's own     *)
(* specification.                                                                  *)
EXTENDS TraceBase
G == INSTANCE Trace_Getitem
R == INSTANCE Trace_Reduce
S == INSTANCE Trace_Struct
U == INSTANCE Trace_Ufunc
C == INSTANCE Trace_Combine
M == INSTANCE Trace_Merge
V == INSTANCE Trace_Convert
Check(e) == CASE e.spec = "getitem" -> G!Check(e)
              [] e.spec = "reduce" -> R!Check(e)
              [] e.spec = "struct" -> S!Check(e)
              [] e.spec = "ufunc" -> U!Check(e)
              [] e.spec = "combine" -> C!Check(e)
              [] e.spec = "merge" -> M!Check(e)
              [] e.spec = "convert" -> V!Check(e)
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
