------------------------------- MODULE MC_Forth -------------------------------
(* All small AwkwardForth programs (a main part of MainLen instructions, one word *)
(* out of Words) under all short sessions of commands: guarantees of the machine  *)
(* are invariants, and every maximal session is printed to be replayed.           *)
EXTENDS Forth, Json, TLC
CONSTANTS MainLen, MaxLen, Words, Stack, Depth
VARIABLES p, m, h
vars == <<p, m, h>>
Lit(x) == <<"lit", N(x)>>
O(w) == <<"op", w>>
Pause == <<"pause">>
Instrs == {Lit(2), O("dup"), O("-"), Pause, <<"call", 1>>, <<"put", 1>>, <<"get", 1>>, <<"if", <<Pause, Lit(3)>>>>,
           <<"ifelse", <<O("1+")>>, <<<<"call", 1>>>>>>,
           <<"do", <<O("i"), Pause>>>>, <<"until", <<Lit(1), <<"inc", 1>>, <<"get", 1>>, Lit(2), O(">")>>>>,
           <<"while", <<<<"get", 1>>, Lit(2), O("<")>>, <<Lit(1), <<"inc", 1>>, Pause>>>>}
AllWords == << <<Lit(5), Pause, O("dup")>>,
               <<O("dup"), <<"if", <<<<"exit">>>>>>, O("drop")>>,
               <<Lit(3), Lit(0), <<"do", <<O("i"), O("dup"), Lit(1), O("="), <<"if", <<<<"exit">>>>>>>>>>, Lit(9)>>,
               <<<<"get", 1>>, Lit(1), O("<"), <<"if", <<Lit(1), <<"inc", 1>>, <<"call", 1>>>>>>, Lit(7)>>,
               <<Lit(4), <<"halt">>>>,
               <<Lit(3), Lit(1), <<"plus", <<Pause, O("i"), Lit(1)>>>>>>,
               <<<<"again", <<Lit(1), <<"inc", 1>>, <<"get", 1>>, Lit(2), O(">"), <<"if", <<Pause, <<"exit">>>>>>>>>>>>,
               <<>> >>
Prog(q) == [words |-> <<AllWords[q.w]>>, main |-> q.main, nvars |-> 1, dts |-> <<>>, stack |-> Stack, depth |-> Depth, width |-> 8]
Cmds == {[c |-> "resume"], [c |-> "steps"], [c |-> "call", w |-> 1], [c |-> "pop"]}
Starts == {[c |-> "run"], [c |-> "begin"]}
Init == /\ p \in [main : [1..MainLen -> Instrs], w : Words]
        /\ m = [Fresh(Prog(p), <<>>) EXCEPT !.outs = <<>>]
        /\ h = <<>>
Next == /\ Len(h) < MaxLen /\ m.err = "none"
        /\ \E x \in (IF h = <<>> THEN Starts ELSE Cmds) : m' = Cmd(m, x, Prog(p), <<>>) /\ h' = Append(h, x)
        /\ p' = p
Spec == Init /\ [][Next]_vars
(* ----------------------------------------------------------- guarantees ---- *)
Bounded == Len(m.st) <= Stack /\ Len(m.fr) <= Depth /\ Len(m.dos) <= Depth
(* what is still to do is inside of what is still to do around it; loops belong to frames *)
Nested == /\ \A i \in 1..Len(m.tg) : m.tg[i] <= Len(m.fr)
          /\ \A i, j \in 1..Len(m.tg) : i < j => m.tg[i] <= m.tg[j]
          /\ m.err = "none" => \A i \in 1..Len(m.dos) : m.dos[i].at <= Len(m.fr)
Decided == m.err # "undefined"
(* a program that is run to its end with pauses does what it does without them *)
RECURSIVE Without(_)
Without(code) == LET q == SelectSeq(code, LAMBDA x : x # Pause)
                 IN  Map(q, LAMBDA x : IF x[1] \in {"if", "do", "plus", "until", "again"} THEN <<x[1], Without(x[2])>>
                                       ELSE IF x[1] \in {"ifelse", "while"} THEN <<x[1], Without(x[2]), Without(x[3])>> ELSE x)
Pauses == h = <<>> => LET P == Prog(p)
                          Q == [P EXCEPT !.words = Map(P.words, Without), !.main = Without(P.main)]
                          a == RunOut(Begin(P, <<>>), 2000, P)
                          b == RunOut(Begin(Q, <<>>), 2000, Q)
                      IN  a.err = b.err /\ a.st = b.st /\ a.vs = b.vs /\ (a.tg = <<>>) = (b.tg = <<>>)
Shown == (Len(h) = MaxLen \/ (h # <<>> /\ m.err # "none")) => PrintT(<<"BEH", ToJson([words |-> Prog(p).words, main |-> p.main, h |-> h, stack |-> Stack, depth |-> Depth])>>)
==============================================================================
