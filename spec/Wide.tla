--------------------------------- MODULE Wide ---------------------------------
(* Integers beyond TLC's own: <<"w", negative, bytes>>, the magnitude's bytes lowest  *)
(* first, without leading zeros; used from 2^30 on.  Smaller numbers are <<"n", 2x>>. *)
EXTENDS Prelude
Small == 1073741824
RECURSIVE LimbsOf(_), StripM(_), AddM(_, _, _, _), SubM(_, _, _, _), LessM(_, _, _), CarryM(_, _, _)
LimbsOf(x) == IF x = 0 THEN <<>> ELSE <<x % 256>> \o LimbsOf(x \div 256)
StripM(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN StripM(SubSeq(a, 1, Len(a) - 1)) ELSE a
LimbAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
AddM(a, b, i, c) == IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == LimbAt(a, i) + LimbAt(b, i) + c IN <<s % 256>> \o AddM(a, b, i + 1, s \div 256)
(* a >= b *)
SubM(a, b, i, c) == IF i > Len(a) THEN <<>>
                    ELSE LET s == a[i] - LimbAt(b, i) - c IN <<s % 256>> \o SubM(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
LessM(a, b, i) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
                  ELSE IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessM(a, b, i - 1)
BelowM(a, b) == LessM(a, b, Len(a))
CarryM(cols, i, c) == IF i > Len(cols) THEN LimbsOf(c) ELSE LET s == cols[i] + c IN <<s % 256>> \o CarryM(cols, i + 1, s \div 256)
MulM(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE StripM(CarryM(Tab(Len(a) + Len(b), LAMBDA k :
                     SumSeq(Tab(Len(a), LAMBDA i : IF k + 1 - i >= 1 /\ k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0))), 1, 0))
IsW(v) == v[1] = "w"
ToW(v) == IF IsW(v) THEN v ELSE <<"w", v[2] < 0, LimbsOf((IF v[2] < 0 THEN -v[2] ELSE v[2]) \div 2)>>
FromW(neg, m0) ==
  LET m == StripM(m0)
  IN  IF Len(m) < 4 \/ (Len(m) = 4 /\ m[4] < 64)
      THEN LET x == SumSeq(Tab(Len(m), LAMBDA i : m[i] * 256 ^ (i - 1))) IN <<"n", IF neg THEN -2 * x ELSE 2 * x>>
      ELSE <<"w", neg, m>>
NegW(v) == IF IsW(v) THEN <<"w", ~v[2], v[3]>> ELSE <<"n", -v[2]>>
AddW(u, v) ==
  LET a == ToW(u)  b == ToW(v)
  IN  IF a[2] = b[2] THEN FromW(a[2], AddM(a[3], b[3], 1, 0))
      ELSE IF BelowM(a[3], b[3]) THEN FromW(b[2], SubM(b[3], a[3], 1, 0))
      ELSE FromW(a[2], SubM(a[3], b[3], 1, 0))
MulW(u, v) == LET a == ToW(u)  b == ToW(v) IN FromW(a[2] # b[2], MulM(a[3], b[3]))
LessW(u, v) ==
  IF ~IsW(u) /\ ~IsW(v) THEN u[2] < v[2]
  ELSE LET a == ToW(u)  b == ToW(v)
       IN  IF IsW(u) /\ IsW(v) THEN (IF u[2] # v[2] THEN u[2] ELSE IF u[2] THEN BelowM(v[3], u[3]) ELSE BelowM(u[3], v[3]))
           ELSE IF IsW(u) THEN u[2] ELSE ~v[2]
(* the integer that w bytes hold *)
WrapW(v, w, signed) ==
  LET a == ToW(v)
      low == Tab(w, LAMBDA i : LimbAt(a[3], i))
      two == IF ~a[2] THEN low
             ELSE LET c == AddM(Tab(w, LAMBDA i : 255 - low[i]), <<1>>, 1, 0) IN Tab(w, LAMBDA i : LimbAt(c, i))
  IN  IF IsW(v) \/ w < 4
      THEN IF signed /\ two[w] >= 128 THEN LET c == AddM(Tab(w, LAMBDA i : 255 - two[i]), <<1>>, 1, 0) IN FromW(TRUE, Tab(w, LAMBDA i : LimbAt(c, i)))
           ELSE FromW(FALSE, two)
      ELSE IF ~signed /\ v[2] < 0 THEN FromW(FALSE, two) ELSE v
(* sums and products of numbers; halves only below the limit *)
AddN(u, v) == IF ~IsW(u) /\ ~IsW(v) /\ u[2] < Small /\ -u[2] < Small /\ v[2] < Small /\ -v[2] < Small THEN <<"n", u[2] + v[2]>> ELSE AddW(u, v)
MulN(u, v) == IF ~IsW(u) /\ ~IsW(v) /\ ((u[2] < 32000 /\ -u[2] < 32000 /\ v[2] < 32000 /\ -v[2] < 32000) \/ u[2] = 0 \/ v[2] = 0)
              THEN <<"n", (u[2] * v[2]) \div 2>> ELSE MulW(u, v)
==============================================================================
