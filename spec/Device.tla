--------------------------------- MODULE Device ---------------------------------
(* The native device: one clock shown in milliseconds and microseconds, and one mock  *)
(* stream, reached directly or through any number of UARTs stacked on top of it.       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Ins, Outs, Vals, Bulk, Micros, Millis, MaxMs
VARIABLES st, obs
vars == <<st, obs>>
Min(a, b) == IF a < b THEN a ELSE b

(* the clock: whole milliseconds and the microseconds on top of those *)
Init == st = [live |-> FALSE, cin |-> 1, cout |-> 1, in |-> <<>>, out |-> <<>>, ms |-> 0, us |-> 0]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, s, res, data) ==
    st' = s /\ obs' = [op |-> op, r |-> [res |-> res, data |-> data, avail |-> Len(s.in), room |-> s.cout - Len(s.out),
                                         ms |-> s.ms, us_ms |-> s.ms, us_us |-> s.us, uart_ok |-> TRUE, agree |-> TRUE]]

New(op) == Out(op, [live |-> TRUE, cin |-> op.cin, cout |-> op.cout, in |-> <<>>, out |-> <<>>, ms |-> 0, us |-> 0], 0, <<>>)
Fits(q, cap, vs) == SubSeq(vs, 1, Min(Len(vs), cap - Len(q)))
Inject(op) == Out(op, [st EXCEPT !.in = @ \o Fits(st.in, st.cin, op.vs)], 0, <<>>)
Write(op) == LET n == Fits(st.out, st.cout, op.vs) IN Out(op, [st EXCEPT !.out = @ \o n], Len(n), <<>>)
Extract(op) == Out(op, [st EXCEPT !.out = <<>>], 0, st.out)
Read(op) == IF Len(st.in) < op.n THEN Out(op, st, 0, <<>>)
            ELSE Out(op, [st EXCEPT !.in = SubSeq(@, op.n + 1, Len(@))], op.n, SubSeq(st.in, 1, op.n))
Flush(op) == Out(op, st, 0, <<>>)
Advance(s, ms, us) == LET u == s.us + (us % 1000) IN [s EXCEPT !.ms = @ + ms + us \div 1000 + u \div 1000, !.us = u % 1000]
Delay(op) == IF op.how \in {"delay", "delay_ms", "delay_ms_int"} THEN Out(op, Advance(st, op.n, 0), 0, <<>>)
             ELSE Out(op, Advance(st, 0, op.n), 0, <<>>)
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "inject" -> st.live /\ Inject(op)
              [] op.op = "extract" -> st.live /\ Extract(op)
              [] op.op = "write" -> st.live /\ Write(op)
              [] op.op = "read" -> st.live /\ Read(op)
              [] op.op \in {"flush", "start"} -> st.live /\ Flush(op)
              [] op.op = "wait" -> st.live /\ Delay(op)
Vias == {"mock", "uart", "uart2"}
Bulks == UNION {[1 .. n -> Vals] : n \in Bulk}
MCOps == IF ~st.live THEN {[op |-> "new", cin |-> i, cout |-> o] : i \in Ins, o \in Outs}
         ELSE {[op |-> "inject", vs |-> v] : v \in Bulks} \union {[op |-> "extract"]}
              \union {[op |-> "write", vs |-> v, via |-> x, how |-> h] : v \in Bulks, x \in Vias, h \in {"bytes", "chars", "view"}}
              \union {[op |-> "write", vs |-> <<v>>, via |-> x, how |-> h] : v \in Vals, x \in Vias, h \in {"byte", "char"}}
              \union {[op |-> "read", n |-> n, via |-> x, how |-> h] : n \in Bulk, x \in Vias, h \in {"bytes", "chars"}}
              \union {[op |-> "read", n |-> 1, via |-> x, how |-> "byte"] : x \in Vias}
              \union {[op |-> o, via |-> x] : o \in {"flush", "start"}, x \in Vias}
              \union (IF st.ms > MaxMs THEN {} ELSE
                      {[op |-> "wait", how |-> h, n |-> n] : h \in {"delay", "delay_ms", "delay_ms_int"}, n \in Millis}
                      \union {[op |-> "wait", how |-> h, n |-> n] : h \in {"delay_us", "delay_us_int"}, n \in Micros})
--------------------------------------------------------------------------------
TypeOK == Len(st.in) \in 0..st.cin /\ Len(st.out) \in 0..st.cout /\ st.us \in 0..999 /\ st.ms >= 0
(* nothing but a delay moves the clock, and that only forwards *)
Clock == [][ obs'.op.op # "new" => LET fwd == st'.ms > st.ms \/ (st'.ms = st.ms /\ st'.us >= st.us) IN
             IF obs'.op.op = "wait" THEN fwd ELSE st'.ms = st.ms /\ st'.us = st.us ]_vars
(* the directions do not influence each other, and each is a queue *)
Apart == [][ /\ obs'.op.op \in {"inject", "read"} => st'.out = st.out
             /\ obs'.op.op \in {"write", "extract"} => st'.in = st.in
             /\ obs'.op.op \in {"flush", "start", "wait"} => st'.in = st.in /\ st'.out = st.out ]_vars
Queue == [][ /\ obs'.op.op = "read" => obs'.r.data \o st'.in = st.in
             /\ obs'.op.op = "inject" => SubSeq(st'.in, 1, Len(st.in)) = st.in
             /\ obs'.op.op = "write" => SubSeq(st'.out, 1, Len(st.out)) = st.out /\ Len(st'.out) = Len(st.out) + obs'.r.res
             /\ obs'.op.op = "extract" => obs'.r.data = st.out /\ st'.out = <<>> ]_vars
================================================================================
