------------------------------- MODULE MC_Lazy --------------------------------
(* All short sessions with two lazy columns: guarantees of the state machine are *)
(* invariants, and every maximal session is printed to be replayed.              *)
EXTENDS Lazy, Json
CONSTANTS MaxLen, MaxHs, Form, Cached
VARIABLES s, h, f
vars == <<s, h, f>>
N(x) == <<"n", 2 * x>>
R == << [vals |-> <<N(1), N(2), N(3)>>, form |-> TRUE, cached |-> TRUE],
        [vals |-> <<<<"l", <<N(4), N(5)>>>>, <<"l", <<>>>>, <<"l", <<N(6)>>>>>>, form |-> Form, cached |-> Cached] >>
H(i) == [kind |-> "col", names |-> <<>>, src |-> <<i>>, rows |-> <<0, 1, 2>>, pin |-> {}, loose |-> FALSE, picked |-> FALSE]
Init == s = [kept |-> <<FALSE, FALSE>>, calls |-> <<0, 0>>, hs |-> <<H(1), H(2)>>] /\ h = <<>> /\ f = <<0, 0>>
Cmds(i) ==
  LET g == s.hs[i]
      n == Len(g.rows)
  IN  {[c |-> "read", h |-> i]}
      \union (IF g.kind = "one" THEN {[c |-> "field", h |-> i, name |-> g.names[k]] : k \in 1..Len(g.names)}
              ELSE {[c |-> "len", h |-> i], [c |-> "type", h |-> i], [c |-> "range", h |-> i, a |-> 1, b |-> 3], [c |-> "carry", h |-> i, at |-> IF n > 1 THEN <<1, 0>> ELSE <<>>]}
                   \union (IF n > 0 THEN {[c |-> "at", h |-> i, i |-> n - 1]} ELSE {}))
      \union (IF g.kind = "col" THEN {x \in {[c |-> "zip", h |-> i, g |-> j, names |-> <<"q", "p">>] : j \in 1..Len(s.hs)} : s.hs[x.g].kind = "col" /\ s.hs[x.g].rows = g.rows}
              ELSE {})
      \union (IF g.kind = "tab" THEN {[c |-> "field", h |-> i, name |-> g.names[k]] : k \in 1..Len(g.names)} \union {[c |-> "pick", h |-> i, names |-> <<"p">>]}
                                     \union {x \in {[c |-> k, h |-> i, g |-> j, name |-> "z"] : k \in {"withf", "setf"}, j \in 1..Len(s.hs)} : s.hs[x.g].kind = "col" /\ s.hs[x.g].rows = g.rows}
              ELSE {})
All == UNION {Cmds(i) : i \in 1..Len(s.hs)} \union {[c |-> "forget", rs |-> <<r>>] : r \in {r \in 1..2 : s.kept[r]}}
Do(x) == /\ s' = After(s, x, R, Grown(s, x, R))
         /\ h' = Append(h, x)
         /\ f' = IF x.c = "forget" THEN [f EXCEPT ![x.rs[1]] = @ + 1] ELSE f
(* what was made is used: the newest arrays, or the two columns *)
Recent(x) == IF x.c = "forget" THEN TRUE ELSE x.h <= 2 \/ x.h >= Len(s.hs) - 1
Next == Len(h) < MaxLen /\ \E x \in All : Recent(x) /\ Do(x) /\ Len(s'.hs) <= MaxHs
Spec == Init /\ [][Next]_vars
(* ----------------------------------------------------------- guarantees ---- *)
Once == \A r \in 1..2 : R[r].cached => s.calls[r] <= 1 + f[r]
Needed == \A r \in 1..2 : s.calls[r] > 0 => \E i \in 1..Len(h) : h[i].c \in {"read", "at", "field", "range", "carry", "type", "len", "zip", "withf", "setf"}
(* a session that only makes arrays out of arrays whose form is known, and selects no single values or positions, generates nothing *)
Quiet == (\A i \in 1..Len(h) : h[i].c \in {"range", "zip", "pick", "len", "type"}) => \A r \in 1..2 : R[r].form => s.calls[r] = 0
Shapes == \A i \in 1..Len(s.hs) :
            LET g == s.hs[i]
            IN  /\ (g.kind = "col") = (g.names = <<>>)
                /\ Len(g.names) \in {0, Len(g.src)}
                /\ \A k, m \in 1..Len(g.names) : g.names[k] = g.names[m] => k = m
                /\ (g.kind = "one" => Len(g.rows) = 1)
                /\ \A k \in 1..Len(g.rows) : g.rows[k] \in 0..2
Shown == Len(h) = MaxLen => PrintT(<<"BEH", ToJson([h |-> h, form |-> Form, cached |-> Cached])>>)
==============================================================================
