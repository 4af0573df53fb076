----------------------------- MODULE Trace_Forth ------------------------------
EXTENDS Forth, TraceBase
(* A session: a program, then commands with what was observed after each of them. *)
Prog(e) == [words |-> e.words, main |-> e.main, nvars |-> e.nvars, dts |-> e.dts, stack |-> e.stack, depth |-> e.depth, width |-> e.width]
Seen(m) == [st |-> m.st, vs |-> m.vs, done |-> (m.tg = <<>>), ready |-> m.ready,
            pos |-> Map(m.ins, LAMBDA b : b.p), outs |-> m.outs]
RECURSIVE Session(_, _, _, _, _)
Session(e, m, i, P, ins) ==
  IF i > Len(e.cmds) THEN TRUE
  ELSE LET cmd == e.cmds[i]
           m1 == TLCEval(Cmd(m, cmd, P, ins))
           o == cmd.out
       IN  IF m1.err = "undefined" THEN TRUE
           ELSE IF o.err # (IF cmd.c \in {"push", "pop", "clear"} THEN "none" ELSE m1.err) THEN Reject(e, <<i, m1.err, m1.st>>)
           ELSE IF m1.err = "none" /\ [st |-> o.st, vs |-> o.vs, done |-> o.done, ready |-> o.ready, pos |-> o.pos, outs |-> o.outs] # Seen(m1)
           THEN Reject(e, <<i, Seen(m1)>>)
           ELSE IF m1.err # "none" /\ (o.vs # m1.vs \/ o.outs # m1.outs
                                       \/ \E k \in 1..Len(o.pos) : m1.ins[k].p >= 0 /\ o.pos[k] # m1.ins[k].p)
           THEN Reject(e, <<i, Seen(m1)>>)
           ELSE Session(e, m1, i + 1, P, ins)
Check(e) == LET ins == Map(e.ins, LAMBDA b : [b |-> b, p |-> 0])
                P == Prog(e)
            IN  Session(e, [Fresh(P, ins) EXCEPT !.ins = <<>>, !.outs = <<>>], 1, P, ins)
Next == Consume(Check)
Spec == TraceInit /\ [][Next]_<<c, l>>
==============================================================================
