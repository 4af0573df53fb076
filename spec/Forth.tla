------------------------------- MODULE Forth ----------------------------------
(* The AwkwardForth machine: a stack machine with structured control flow, variables,
   input buffers (byte sequences with a read position) and typed, growing outputs.

   A program is a sequence of instructions; control structures contain programs:
     <<"lit", v>> <<"op", w>> <<"call", n>> <<"if", p>> <<"ifelse", p, q>>
     <<"do", p>> <<"plus", p>> <<"until", p>> <<"again", p>> <<"while", p, q>>
     <<"exit">> <<"halt">> <<"pause">> <<"put"|"inc"|"get", x>>
     <<"in", w, n>> <<"read", n, [f, big, rep, nb, out]>> <<"out", w, n>>
   A machine is [st, vs, fr, dos, tg, ready, err, paused, ins, outs]; the rest (words,
   limits, output types, word size) is constant for a program: record P.

   Stack items are <<"n", x>> for small integers and <<"B", bytes>> (8 bytes, little-endian,
   two's complement) for the others.  "undefined" is the error of a program that leaves what
   this specification defines: any outcome is accepted then.                              *)
EXTENDS Prelude, Bitwise
MaxSmall == 1073741824
N(x) == <<"n", x>>
IsN(v) == v[1] = "n"
Byte(x, i) == IF i = 1 THEN x % 256 ELSE IF i = 2 THEN (x \div 256) % 256
              ELSE IF i = 3 THEN (x \div 65536) % 256 ELSE (x \div 16777216) % 256
ToB(v) == IF IsN(v) THEN Tab(8, LAMBDA i : IF i <= 4 THEN Byte(v[2], i) ELSE IF v[2] < 0 THEN 255 ELSE 0) ELSE v[2]
(* the value of 8 bytes in canonical form *)
Canon(b) ==
  IF b[5] = 0 /\ b[6] = 0 /\ b[7] = 0 /\ b[8] = 0 /\ b[4] < 64
  THEN N(b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4])
  ELSE IF b[5] = 255 /\ b[6] = 255 /\ b[7] = 255 /\ b[8] = 255 /\ b[4] >= 192
  THEN N(b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (b[4] - 256))
  ELSE <<"B", b>>
(* the low w bytes, sign- or zero-extended *)
Narrow(b, w, signed) == LET neg == signed /\ b[w] >= 128 IN Canon(Tab(8, LAMBDA i : IF i <= w THEN b[i] ELSE IF neg THEN 255 ELSE 0))
RECURSIVE AddB(_, _, _, _)
AddB(a, b, i, carry) == IF i > 8 THEN <<>> ELSE LET s == a[i] + b[i] + carry IN <<s % 256>> \o AddB(a, b, i + 1, s \div 256)
InvB(a) == Tab(8, LAMBDA i : 255 - a[i])
NegB(a) == AddB(InvB(a), <<1, 0, 0, 0, 0, 0, 0, 0>>, 1, 0)
Signed(b) == b[8] >= 128
RECURSIVE LessU(_, _, _)
LessU(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessU(a, b, i - 1)
LessV(a, b) == IF IsN(a) /\ IsN(b) THEN a[2] < b[2]
               ELSE LET x == ToB(a)  y == ToB(b) IN IF Signed(x) # Signed(y) THEN Signed(x) ELSE LessU(x, y, 8)
SameV(a, b) == ToB(a) = ToB(b)
Undef == <<"undef", 0>>
AddV(a, b, w) == IF IsN(a) /\ IsN(b) /\ a[2] + b[2] < MaxSmall /\ a[2] + b[2] >= -MaxSmall THEN N(a[2] + b[2])
                 ELSE Narrow(AddB(ToB(a), ToB(b), 1, 0), w, TRUE)
NegV(a, w) == IF IsN(a) /\ a[2] # -MaxSmall THEN N(-a[2]) ELSE Narrow(NegB(ToB(a)), w, TRUE)
Abs(x) == IF x < 0 THEN -x ELSE x
MulV(a, b) == IF IsN(a) /\ IsN(b) /\ ((Abs(a[2]) < 32000 /\ Abs(b[2]) < 32000) \/ a[2] = 0 \/ b[2] = 0) THEN N(a[2] * b[2]) ELSE Undef
Neg(v) == LessV(v, N(0))
DivV(a, b, w) == IF b = N(-1) THEN NegV(a, w)
                 ELSE IF IsN(a) /\ IsN(b) THEN N(FloorDiv(a[2], b[2]))
                 ELSE IF IsN(a) THEN (IF a = N(0) \/ Neg(a) = Neg(b) THEN N(0) ELSE N(-1))   (* |a| <= |b| *)
                 ELSE IF b = N(1) THEN a ELSE Undef
ModV(a, b, w) == IF b = N(-1) \/ b = N(1) THEN N(0)
                 ELSE IF IsN(a) /\ IsN(b) THEN N(a[2] - b[2] * FloorDiv(a[2], b[2]))
                 ELSE IF IsN(a) THEN (IF a = N(0) \/ Neg(a) = Neg(b) THEN a ELSE AddV(a, b, w))
                 ELSE Undef
AndB(a, b) == Tab(8, LAMBDA i : a[i] & b[i])
OrB(a, b) == Tab(8, LAMBDA i : a[i] | b[i])
XorB(a, b) == Tab(8, LAMBDA i : a[i] ^^ b[i])
LShift(a, b) == IF IsN(a) /\ IsN(b) /\ b[2] >= 0 /\ b[2] < 15 /\ Abs(a[2]) < 32768 THEN N(a[2] * 2 ^ b[2]) ELSE Undef
RShift(a, b) == IF IsN(a) /\ IsN(b) /\ b[2] >= 0 /\ b[2] < 30 THEN N(a[2] \div 2 ^ b[2]) ELSE Undef
Flag(c) == IF c THEN N(-1) ELSE N(0)
-------------------------------------------------------------------------------
Top(m) == m.st[Len(m.st)]
At(m, k) == m.st[Len(m.st) - k]               (* k = 0: the top *)
Drop(s, k) == SubSeq(s, 1, Len(s) - k)
Fail(m, e) == [m EXCEPT !.err = e]
Need(m, k) == Len(m.st) >= k
(* replaces the top k items by vs *)
Repl(m, k, vs, P) ==
  IF ~Need(m, k) THEN Fail(m, "stack underflow")
  ELSE IF Len(m.st) - k + Len(vs) > P.stack THEN Fail(m, "stack overflow")
  ELSE IF \E i \in 1..Len(vs) : vs[i][1] = "undef" THEN Fail(m, "undefined")
  ELSE [m EXCEPT !.st = Drop(m.st, k) \o vs]
Push(m, v, P) == Repl(m, 0, <<v>>, P)
Bin(w, a, b, W) ==
  CASE w = "+" -> AddV(a, b, W) [] w = "-" -> AddV(a, NegV(b, W), W) [] w = "*" -> MulV(a, b)
    [] w = "/" -> DivV(a, b, W) [] w = "mod" -> ModV(a, b, W)
    [] w = "min" -> IF LessV(b, a) THEN b ELSE a [] w = "max" -> IF LessV(a, b) THEN b ELSE a
    [] w = "=" -> Flag(SameV(a, b)) [] w = "<>" -> Flag(~SameV(a, b))
    [] w = "<" -> Flag(LessV(a, b)) [] w = ">" -> Flag(LessV(b, a))
    [] w = "<=" -> Flag(~LessV(b, a)) [] w = ">=" -> Flag(~LessV(a, b))
    [] w = "and" -> Canon(AndB(ToB(a), ToB(b))) [] w = "or" -> Canon(OrB(ToB(a), ToB(b)))
    [] w = "xor" -> Canon(XorB(ToB(a), ToB(b)))
    [] w = "lshift" -> LShift(a, b) [] w = "rshift" -> RShift(a, b)
Una(w, a, W) ==
  CASE w = "negate" -> NegV(a, W) [] w = "1+" -> AddV(a, N(1), W) [] w = "1-" -> AddV(a, N(-1), W)
    [] w = "abs" -> IF LessV(a, N(0)) THEN NegV(a, W) ELSE a
    [] w = "0=" -> Flag(SameV(a, N(0))) [] w = "invert" -> Canon(InvB(ToB(a)))
Unary == {"negate", "1+", "1-", "abs", "0=", "invert"}
Loop(m, k) == m.dos[Len(m.dos) - k]
Op(m, w, P) ==
  CASE w = "dup" -> IF Need(m, 1) THEN Push(m, Top(m), P) ELSE Fail(m, "stack underflow")
    [] w = "drop" -> Repl(m, 1, <<>>, P)
    [] w = "swap" -> IF Need(m, 2) THEN Repl(m, 2, <<At(m, 0), At(m, 1)>>, P) ELSE Fail(m, "stack underflow")
    [] w = "over" -> IF Need(m, 2) THEN Push(m, At(m, 1), P) ELSE Fail(m, "stack underflow")
    [] w = "rot" -> IF Need(m, 3) THEN Repl(m, 3, <<At(m, 1), At(m, 0), At(m, 2)>>, P) ELSE Fail(m, "stack underflow")
    [] w = "nip" -> IF Need(m, 2) THEN Repl(m, 2, <<At(m, 0)>>, P) ELSE Fail(m, "stack underflow")
    [] w = "tuck" -> IF Need(m, 2) THEN Repl(m, 2, <<At(m, 0), At(m, 1), At(m, 0)>>, P) ELSE Fail(m, "stack underflow")
    [] w = "false" -> Push(m, N(0), P)
    [] w = "true" -> Push(m, N(-1), P)
    [] w = "i" -> Push(m, Loop(m, 0).i, P)
    [] w = "j" -> Push(m, Loop(m, 1).i, P)
    [] w = "k" -> Push(m, Loop(m, 2).i, P)
    [] w = "/mod" -> IF ~Need(m, 2) THEN Fail(m, "stack underflow")
                     ELSE IF SameV(At(m, 0), N(0)) THEN Fail(m, "division by zero")
                     ELSE Repl(m, 2, <<ModV(At(m, 1), At(m, 0), P.width), DivV(At(m, 1), At(m, 0), P.width)>>, P)
    [] w \in Unary -> IF Need(m, 1) THEN Repl(m, 1, <<Una(w, Top(m), P.width)>>, P) ELSE Fail(m, "stack underflow")
    [] OTHER -> IF ~Need(m, 2) THEN Fail(m, "stack underflow")
                ELSE IF w \in {"/", "mod"} /\ SameV(At(m, 0), N(0)) THEN Fail(m, "division by zero")
                ELSE Repl(m, 2, <<Bin(w, At(m, 1), At(m, 0), P.width)>>, P)
-------------------------------------------------------------------------------
(* Input and output. *)
IntFmt(f) == f \in {"b", "h", "i", "q", "n", "B", "H", "I", "Q", "N"}
SizeOf(f) == CASE f \in {"?", "b", "B"} -> 1 [] f \in {"h", "H"} -> 2 [] f \in {"i", "I", "f"} -> 4 [] OTHER -> 8
SignedF(f) == f \in {"b", "h", "i", "q", "n"}
Pad8(s) == Tab(8, LAMBDA i : IF i <= Len(s) THEN s[i] ELSE 0)
(* floating-point numbers are multiples of one half: <<"f", 2x>> *)
Scale(man, e) == IF e >= 0 THEN (IF e > 14 THEN Undef ELSE <<"f", man * 2 ^ e>>)
                 ELSE IF e < -20 THEN Undef ELSE IF man % (2 ^ (-e)) = 0 THEN <<"f", man \div (2 ^ (-e))>> ELSE Undef
SignF(v, s) == IF v[1] = "f" /\ s THEN (IF v[2] = 0 THEN Undef ELSE <<"f", -v[2]>>) ELSE v
Float64Of(b) == LET e == (b[8] % 128) * 16 + b[7] \div 16
                    man == 4096 + (b[7] % 16) * 256 + b[6]
                IN  IF b[1] # 0 \/ b[2] # 0 \/ b[3] # 0 \/ b[4] # 0 \/ b[5] # 0 THEN Undef
                    ELSE IF e = 0 THEN (IF man = 4096 /\ b[8] < 128 THEN <<"f", 0>> ELSE Undef)
                    ELSE SignF(Scale(man, e - 1023 + 1 - 12), b[8] >= 128)
Float32Of(b) == LET e == (b[4] % 128) * 2 + b[3] \div 128
                    man == 32768 + (b[3] % 128) * 256 + b[2]
                IN  IF b[1] # 0 THEN Undef
                    ELSE IF e = 0 THEN (IF man = 32768 /\ b[4] < 128 THEN <<"f", 0>> ELSE Undef)
                    ELSE SignF(Scale(man, e - 127 + 1 - 15), b[4] >= 128)
Item(f, bs, big) ==
  LET b == IF big THEN Rev(bs) ELSE bs
  IN  IF f = "?" THEN (IF b[1] > 1 THEN Undef ELSE N(b[1]))
      ELSE IF f = "f" THEN Float32Of(b) ELSE IF f = "d" THEN Float64Of(b)
      ELSE Narrow(Pad8(b), SizeOf(f), SignedF(f))
Trunc(x2) == IF x2 >= 0 THEN x2 \div 2 ELSE -((-x2) \div 2)
(* what the stack holds for a value read *)
OnStack(v, W) == IF v[1] = "f" THEN N(Trunc(v[2])) ELSE IF v[1] = "undef" THEN v ELSE Narrow(ToB(v), W, TRUE)
(* what an output of type dt holds for a value written *)
IntDt(dt) == dt \in {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"}
Width(dt) == CASE dt \in {"int8", "uint8", "bool"} -> 1 [] dt \in {"int16", "uint16"} -> 2
               [] dt \in {"int32", "uint32", "float32"} -> 4 [] OTHER -> 8
SignedDt(dt) == dt \in {"int8", "int16", "int32", "int64"}
ToOut(v, dt) ==
  IF v[1] = "undef" THEN v
  ELSE IF dt \in {"float32", "float64"} THEN (IF v[1] = "f" THEN v ELSE IF IsN(v) /\ Abs(v[2]) < 4000000 THEN <<"f", 2 * v[2]>> ELSE Undef)
  ELSE IF dt = "bool" THEN (IF v[1] = "f" THEN N(IF v[2] = 0 THEN 0 ELSE 1) ELSE N(IF SameV(v, N(0)) THEN 0 ELSE 1))
  ELSE IF v[1] = "f"
  THEN LET x == Trunc(v[2])
           r == Narrow(ToB(N(x)), Width(dt), SignedDt(dt))
       IN  IF r = N(x) THEN r ELSE Undef
  ELSE Narrow(ToB(v), Width(dt), SignedDt(dt))
SumOut(a, v, dt) ==
  LET b == ToOut(v, dt)
  IN  IF b[1] = "undef" \/ a[1] = "undef" THEN Undef
      ELSE IF dt \in {"float32", "float64"} THEN (IF Abs(a[2]) + Abs(b[2]) < 16000000 THEN <<"f", a[2] + b[2]>> ELSE Undef)
      ELSE IF dt = "bool" THEN N(IF a[2] + b[2] = 0 THEN 0 ELSE 1)
      ELSE Narrow(AddB(ToB(a), ToB(b), 1, 0), Width(dt), SignedDt(dt))
Emit(m, o, vs) == IF \E i \in 1..Len(vs) : vs[i][1] = "undef" THEN Fail(m, "undefined") ELSE [m EXCEPT !.outs[o] = m.outs[o] \o vs]
Zero(dt) == IF dt \in {"float32", "float64"} THEN <<"f", 0>> ELSE N(0)
RECURSIVE PushAll(_, _, _)
PushAll(m, vs, P) == IF vs = <<>> \/ m.err # "none" THEN m ELSE PushAll(Push(m, Head(vs), P), Tail(vs), P)
(* bits, least significant first *)
Bit(b, k) == (b \div 2 ^ k) % 2
BitsToV(bits) == LET at(i) == IF i <= Len(bits) THEN bits[i] ELSE 0
                     byte(i) == LET z == 8 * (i - 1)
                                IN  at(z+1) + 2*at(z+2) + 4*at(z+3) + 8*at(z+4) + 16*at(z+5) + 32*at(z+6) + 64*at(z+7) + 128*at(z+8)
                 IN  Tab(8, byte)
RECURSIVE VarEnd(_, _, _)
(* position after the variable-length integer at p; 0: too big, -1: past the end *)
VarEnd(b, p, k) == IF p >= Len(b) THEN -1 ELSE IF k = 9 THEN 0
                   ELSE IF b[p + 1] >= 128 THEN VarEnd(b, p + 1, k + 1) ELSE p + 1
VarBits(b, p, q) == Tab(7 * (q - p), LAMBDA i : Bit(b[p + 1 + (i - 1) \div 7], (i - 1) % 7))
ZigZag(b) == LET half == BitsToV(Tab(63, LAMBDA i : Bit(b[1 + i \div 8], i % 8)))
             IN  IF b[1] % 2 = 1 THEN InvB(half) ELSE half
RECURSIVE ReadVar(_, _, _, _, _)
ReadVar(m, n, r, count, P) ==
  IF count <= 0 \/ m.err # "none" THEN m
  ELSE LET buf == m.ins[n]
           q == VarEnd(buf.b, buf.p, 0)
       IN  IF q = -1 THEN Fail([m EXCEPT !.ins[n].p = 0 - 1], "read beyond")
           ELSE IF q = 0 THEN Fail([m EXCEPT !.ins[n].p = 0 - 1], "varint too big")      (* the position is not defined *)
           ELSE LET u == BitsToV(VarBits(buf.b, buf.p, q))
                    v == Canon(IF r.f = "zigzag" THEN ZigZag(u) ELSE u)
                    m1 == [m EXCEPT !.ins[n].p = q]
                    vT == IF r.f = "zigzag" THEN Narrow(ToB(v), P.width, TRUE) ELSE v
                    m2 == IF r.out = 0 THEN Push(m1, OnStack(v, P.width), P)
                          ELSE Emit(m1, r.out, <<IF r.f = "varint" /\ P.dts[r.out] \in {"float32", "float64"} /\ ~IsN(v) THEN Undef
                                                 ELSE ToOut(vT, P.dts[r.out])>>)
                IN  ReadVar(TLCEval(m2), n, r, count - 1, P)
Flip(b) == Bit(b, 7) + 2 * Bit(b, 6) + 4 * Bit(b, 5) + 8 * Bit(b, 4) + 16 * Bit(b, 3) + 32 * Bit(b, 2) + 64 * Bit(b, 1) + 128 * Bit(b, 0)
ReadBits(m, n, r, count, P) ==
  LET buf == m.ins[n]
      need == (count * r.nb + 7) \div 8
      at(i) == LET x == buf.b[buf.p + 1 + i \div 8] IN Bit(IF r.big THEN Flip(x) ELSE x, i % 8)
      item(k) == Canon(BitsToV(Tab(r.nb, LAMBDA i : at((k - 1) * r.nb + i - 1))))
      fits == buf.p + need <= Len(buf.b)
      k == IF fits THEN count ELSE (8 * (Len(buf.b) - buf.p)) \div r.nb
      vs == Tab(k, item)
      m1 == [m EXCEPT !.ins[n].p = IF fits THEN buf.p + need ELSE Len(buf.b)]
      m2 == IF r.out = 0 THEN PushAll(m1, Map(vs, LAMBDA v : OnStack(v, P.width)), P)
            ELSE Emit(m1, r.out, Map(vs, LAMBDA v : ToOut(Narrow(ToB(v), P.width, TRUE), P.dts[r.out])))
  IN  IF count <= 0 THEN m
      ELSE IF m2.err = "stack overflow" THEN [m2 EXCEPT !.ins[n].p = 0 - 1]      (* the position is not defined *)
      ELSE IF m2.err # "none" \/ fits THEN m2 ELSE Fail(m2, "read beyond")
ReadFmt(m, n, r, count, P) ==
  LET buf == m.ins[n]
      sz == SizeOf(r.f)
      next == buf.p + count * sz
      vs == Tab(count, LAMBDA k : Item(r.f, SubSeq(buf.b, buf.p + (k - 1) * sz + 1, buf.p + k * sz), r.big))
      m1 == [m EXCEPT !.ins[n].p = next]
  IN  IF count < 0 \/ count > 1000 THEN Fail(m, "undefined")
      ELSE IF next > Len(buf.b) THEN Fail(m, "read beyond")
      ELSE IF r.out = 0 THEN PushAll(m1, Map(vs, LAMBDA v : OnStack(v, P.width)), P)
      ELSE Emit(m1, r.out, Map(vs, LAMBDA v : ToOut(v, P.dts[r.out])))
Read(m, n, r, P) ==
  IF r.rep /\ ~Need(m, 1) THEN Fail(m, "stack underflow")
  ELSE LET cv == IF r.rep THEN Top(m) ELSE N(1)
           m1 == IF r.rep THEN Repl(m, 1, <<>>, P) ELSE m
       IN  IF ~IsN(cv) \/ cv[2] > 1000 \/ cv[2] < 0 THEN Fail(m, "undefined")
           ELSE IF r.f \in {"varint", "zigzag"} THEN ReadVar(m1, n, r, cv[2], P)
           ELSE IF r.f = "bit" THEN ReadBits(m1, n, r, cv[2], P)
           ELSE ReadFmt(m1, n, r, cv[2], P)
InOp(m, w, n, P) ==
  LET buf == m.ins[n]
  IN  CASE w = "len" -> Push(m, N(Len(buf.b)), P)
        [] w = "pos" -> Push(m, N(buf.p), P)
        [] w = "end" -> Push(m, Flag(buf.p = Len(buf.b)), P)
        [] OTHER -> IF ~Need(m, 1) THEN Fail(m, "stack underflow")
                    ELSE LET t == Top(m)
                             to == IF w = "seek" THEN t[2] ELSE buf.p + t[2]
                         IN  IF ~IsN(t) THEN Fail(m, "undefined")
                             ELSE IF to < 0 \/ to > Len(buf.b) THEN Fail(m, w \o " beyond")
                             ELSE [Repl(m, 1, <<>>, P) EXCEPT !.ins[n].p = to]
OutOp(m, w, o, P) ==
  IF w = "len" THEN Push(m, N(Len(m.outs[o])), P)
  ELSE IF ~Need(m, 1) THEN Fail(m, "stack underflow")
  ELSE LET t == Top(m)
           m1 == Repl(m, 1, <<>>, P)
           out == m.outs[o]
           dt == P.dts[o]
       IN  CASE w = "<-" -> Emit(m1, o, <<ToOut(t, dt)>>)
             [] w = "+<-" -> Emit(m1, o, <<SumOut(IF out = <<>> THEN Zero(dt) ELSE out[Len(out)], t, dt)>>)
             [] w = "dup" -> IF out = <<>> THEN Fail(m, "rewind beyond")
                             ELSE IF ~IsN(t) \/ t[2] > 1000 THEN Fail(m, "undefined")
                             ELSE Emit(m1, o, Tab(Max2(t[2], 0), LAMBDA i : out[Len(out)]))
             [] w = "rewind" -> IF ~IsN(t) \/ t[2] < 0 THEN Fail(m, "undefined")
                                ELSE IF t[2] > Len(out) THEN Fail(m, "rewind beyond")
                                ELSE [m1 EXCEPT !.outs[o] = Drop(out, t[2])]
-------------------------------------------------------------------------------
(* Control.  A frame is [k, code, pc]; k says what happens at its end.  dos holds the
   counted loops: [i, stop, at], at being the number of frames of the frame that loops. *)
Frame(k, code, alt) == [k |-> k, code |-> code, pc |-> 1, alt |-> alt, nx |-> <<>>]
Enter(m, f, P) == IF Len(m.fr) >= P.depth THEN Fail(m, "recursion depth exceeded") ELSE [m EXCEPT !.fr = Append(m.fr, f)]
Cur(m) == m.fr[Len(m.fr)]
Advance(m) == [m EXCEPT !.fr[Len(m.fr)].pc = Cur(m).pc + 1]
Leave(m) == [m EXCEPT !.fr = Drop(m.fr, 1)]
(* the top frame is one that loops: go round or leave the loop *)
Again(m, k, body, P) ==
  LET lp == Loop(m, 0)
  IN  IF ~LessV(lp.i, lp.stop) THEN [m EXCEPT !.dos = Drop(m.dos, 1)]
      ELSE Enter(m, Frame(k, body, <<>>), P)
EndFrame(m, P) ==
  LET f == Cur(m)
      m1 == Leave(m)
  IN  CASE f.k \in {"word", "plain"} -> m1
        [] f.k = "again" -> Enter(m1, Frame("again", f.code, <<>>), P)
        [] f.k = "until" -> IF ~Need(m, 1) THEN Fail(m, "stack underflow")
                            ELSE LET m2 == Repl(m1, 1, <<>>, P)
                                 IN  IF SameV(Top(m), N(0)) THEN Enter(m2, Frame("until", f.code, <<>>), P) ELSE m2
        [] f.k = "pre" -> IF ~Need(m, 1) THEN Fail(m, "stack underflow")
                          ELSE LET m2 == Repl(m1, 1, <<>>, P)
                               IN  IF SameV(Top(m), N(0)) THEN m2 ELSE Enter(m2, Frame("post", f.alt, f.code), P)
        [] f.k = "post" -> Enter(m1, Frame("pre", f.alt, f.code), P)
        [] f.k = "do" -> Again([m1 EXCEPT !.dos[Len(m.dos)].i = AddV(Loop(m, 0).i, N(1), P.width)], "do", f.code, P)
        [] f.k = "plus" -> IF ~Need(m, 1) THEN Fail(m, "stack underflow")
                           ELSE Again([Repl(m1, 1, <<>>, P) EXCEPT !.dos[Len(m.dos)].i = AddV(Loop(m, 0).i, Top(m), P.width)], "plus", f.code, P)
RECURSIVE ToWord(_)
ToWord(fr) == IF fr[Len(fr)].k = "word" THEN Drop(fr, 1) ELSE ToWord(Drop(fr, 1))
Exec(m0, ins, P) ==
  LET m == Advance(m0)
      w == ins[1]
  IN  CASE w = "lit" -> Push(m, ins[2], P)
        [] w = "op" -> Op(m, ins[2], P)
        [] w = "call" -> Enter(m, Frame("word", P.words[ins[2]], <<>>), P)
        [] w = "if" -> IF ~Need(m, 1) THEN Fail(m, "stack underflow")
                       ELSE LET m1 == Repl(m, 1, <<>>, P)
                            IN  IF SameV(Top(m), N(0)) THEN m1 ELSE Enter(m1, Frame("plain", ins[2], <<>>), P)
        [] w = "ifelse" -> IF ~Need(m, 1) THEN Fail(m, "stack underflow")
                           ELSE Enter(Repl(m, 1, <<>>, P), Frame("plain", IF SameV(Top(m), N(0)) THEN ins[3] ELSE ins[2], <<>>), P)
        [] w \in {"do", "plus"} ->
             IF ~Need(m, 2) THEN Fail(m, "stack underflow")
             ELSE IF Len(m.dos) >= P.depth THEN Fail(m, "recursion depth exceeded")
             ELSE Again([Repl(m, 2, <<>>, P) EXCEPT !.dos = Append(m.dos, [i |-> At(m, 0), stop |-> At(m, 1), at |-> Len(m.fr)])], w, ins[2], P)
        [] w = "until" -> Enter(m, Frame("until", ins[2], <<>>), P)
        [] w = "again" -> Enter(m, Frame("again", ins[2], <<>>), P)
        [] w = "while" -> Enter(m, Frame("pre", ins[2], ins[3]), P)
        [] w = "exit" -> LET fr == ToWord(m.fr) IN [m EXCEPT !.fr = fr, !.dos = SelectSeq(m.dos, LAMBDA d : d.at <= Len(fr))]
        [] w = "halt" -> [m EXCEPT !.err = "user halt", !.ready = FALSE, !.fr = <<>>, !.dos = <<>>, !.tg = <<>>]
        [] w = "pause" -> [m EXCEPT !.paused = TRUE]
        [] w = "put" -> IF ~Need(m, 1) THEN Fail(m, "stack underflow") ELSE [Repl(m, 1, <<>>, P) EXCEPT !.vs[ins[2]] = Top(m)]
        [] w = "inc" -> IF ~Need(m, 1) THEN Fail(m, "stack underflow") ELSE [Repl(m, 1, <<>>, P) EXCEPT !.vs[ins[2]] = AddV(m.vs[ins[2]], Top(m), P.width)]
        [] w = "get" -> Push(m, m.vs[ins[2]], P)
        [] w = "in" -> InOp(m, ins[2], ins[3], P)
        [] w = "read" -> Read(m, ins[2], ins[3], P)
        [] w = "out" -> OutOp(m, ins[2], ins[3], P)
Target(m) == m.tg[Len(m.tg)]
Halted(m) == m.err # "none" \/ m.paused \/ Len(m.fr) <= Target(m)
Step(m, P) == LET f == Cur(m)
              IN  IF f.nx # <<>> THEN EndFrame([m EXCEPT !.fr = Append([m.fr EXCEPT ![Len(m.fr)].nx = <<>>], f.nx[1])], P)
                  ELSE IF f.pc > Len(f.code) THEN EndFrame(m, P) ELSE Exec(m, f.code[f.pc], P)
RECURSIVE StepN(_, _, _)
StepN(m, n, P) == IF n = 0 \/ Halted(m) THEN m ELSE StepN(TLCEval(Step(m, P)), n - 1, P)
RECURSIVE Go(_, _, _)
Go(m, n, P) == IF Halted(m) THEN m ELSE IF n = 0 THEN Fail(m, "undefined") ELSE Go(TLCEval(StepN(m, 50, P)), n - 1, P)
(* A pause that ends its frame has ended it; what happens at the end of the body of a loop
   happens when the machine goes on (nx). *)
AfterPause(m, P) ==
  IF ~m.paused THEN m
  ELSE LET f == Cur(m)
           below == Leave(m).fr
       IN  IF f.pc <= Len(f.code) THEN m
           ELSE IF f.k \in {"word", "plain"} THEN Leave(m)
           ELSE [m EXCEPT !.fr = [below EXCEPT ![Len(below)].nx = <<f>>]]
Settle(m) == IF m.err = "none" /\ m.tg # <<>> /\ Len(m.fr) = Target(m) THEN [m EXCEPT !.tg = Drop(m.tg, 1)] ELSE m
Run(m, P) == Settle(AfterPause(Go([m EXCEPT !.paused = FALSE], 200, P), P))
RECURSIVE RunOut(_, _, _)
RunOut(m, n, P) == IF m.err # "none" \/ m.tg = <<>> \/ n = 0 THEN m ELSE RunOut(Run(m, P), n - 1, P)
-------------------------------------------------------------------------------
(* The machine's interface. *)
Fresh(P, ins) == [st |-> <<>>, vs |-> Tab(P.nvars, LAMBDA i : N(0)), fr |-> <<>>, dos |-> <<>>, tg |-> <<>>, ready |-> FALSE,
                  err |-> "none", paused |-> FALSE, ins |-> ins, outs |-> Tab(Len(P.dts), LAMBDA i : <<>>)]
Begin(P, ins) == [Fresh(P, ins) EXCEPT !.ready = TRUE, !.tg = <<0>>, !.fr = <<Frame("word", P.main, <<>>)>>]
Guarded(m, op) == IF ~m.ready THEN Fail(m, "not ready") ELSE IF m.tg = <<>> /\ op # "call" THEN Fail(m, "is done") ELSE m
Cmd(m, e, P, ins) ==
  CASE e.c = "begin" -> Begin(P, ins)
    [] e.c = "run" -> Run(Begin(P, ins), P)
    [] e.c = "reset" -> [Fresh(P, ins) EXCEPT !.ins = <<>>, !.outs = <<>>]
    [] e.c = "resume" -> LET g == Guarded(m, "resume") IN IF g.err # "none" THEN g ELSE Run(g, P)
    [] e.c = "steps" -> LET g == Guarded(m, "step") IN IF g.err # "none" THEN g ELSE RunOut(g, 2000, P)
    [] e.c = "call" -> LET g == Guarded(m, "call")
                       IN  IF g.err # "none" THEN g
                           ELSE IF Len(g.fr) >= P.depth THEN Fail(g, "recursion depth exceeded")
                           ELSE Run([g EXCEPT !.tg = Append(g.tg, Len(g.fr)), !.fr = Append(g.fr, Frame("word", P.words[e.w], <<>>))], P)
    [] e.c = "push" -> IF Len(m.st) >= P.stack THEN m ELSE [m EXCEPT !.st = Append(m.st, e.v)]
    [] e.c = "pop" -> IF m.st = <<>> THEN m ELSE [m EXCEPT !.st = Drop(m.st, 1)]
    [] e.c = "clear" -> [m EXCEPT !.st = <<>>]
==============================================================================
