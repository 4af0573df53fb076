-------------------------------- MODULE Heap ----------------------------------
(* The arrays a program holds, as a state machine.                               *)
(*                                                                               *)
(* Arrays are values: whatever buffers they share inside, an operation makes new *)
(* arrays and changes none that exist; only an assignment of a field changes an  *)
(* array, namely the one that is assigned to; a failed operation changes nothing;*)
(* writing into the buffers of a copy changes that copy only.                    *)
EXTENDS Types
VARIABLES heap
(* acts: [a |-> "new", n |-> how many arrays are made] | [a |-> "look"] | [a |-> "set", at |-> which] *)
Owned(act, h) == CASE act.a = "set" -> {act.at} [] OTHER -> {}
Grown(act, h) == CASE act.a = "new" -> act.n [] OTHER -> 0
(* one step from the arrays h to the arrays g; eq compares two arrays *)
Frame(act, h, g) == /\ Len(g) = Len(h) + Grown(act, h)
                    /\ \A i \in 1..Len(h) : i \notin Owned(act, h) => g[i] = h[i]
Changed(act, h, g) == {i \in 1..Len(h) : i \notin Owned(act, h) /\ g[i] # h[i]}
==============================================================================
