------------------------------- MODULE Prelude -------------------------------
(* Generic helpers. TLC evaluates function constructors lazily, once per        *)
(* application; Map and friends therefore force the result with TLCEval.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Force(x) == TLCEval(x)
Tab(n, Op(_)) == TLCEval([i \in 1..n |-> Op(i)])
Map(s, Op(_)) == TLCEval([i \in 1..Len(s) |-> Op(s[i])])
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s, z) == FoldLeft(Max2, z, s)
MinSeq(s, z) == FoldLeft(Min2, z, s)
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)      \* concatenate a sequence of sequences
AllOf(s, P(_)) == \A i \in 1..Len(s) : P(s[i])
AnyOf(s, P(_)) == \E i \in 1..Len(s) : P(s[i])
Rep(n, x) == [i \in 1..n |-> x]
IndexIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x
                 THEN CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x
                 ELSE 0
Filter(s, P(_)) == SelectSeq(s, P)
Rev(s) == Reverse(s)
Zip2(s, t, Op(_, _)) == TLCEval([i \in 1..Len(s) |-> Op(s[i], t[i])])
Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
(* Python floor division / modulo for possibly negative operands *)
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
FloorMod(a, b) == a - b * FloorDiv(a, b)
==============================================================================
