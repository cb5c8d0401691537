---------------------------------- MODULE Flow ----------------------------------
(* spn::io::BufferedStream and Transaction with buffers, lines and replies too long to *)
(* write out (beyond what 8 and 16 bits count). Byte number k has the value k % 200, a *)
(* delimiter is 255; at most one delimiter is on its way. Bytes lo+1 .. lo+n are in    *)
(* the input buffer, the next pend ones in the underlying stream; bytes olo+1 .. olo+on*)
(* wait to go out, the last tq of them queued by the transaction.                      *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Caps, Amounts, Depth, Mode
VARIABLES st, obs
vars == <<st, obs>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Init == st = [live |-> FALSE, cap |-> 0, lo |-> 0, n |-> 0, mk |-> 0, pend |-> 0, olo |-> 0, on |-> 0, tx |-> FALSE, tq |-> 0, steps |-> 0]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
HasLine(s) == s.mk > s.lo /\ s.mk <= s.lo + s.n
LineLen(s) == IF HasLine(s) THEN s.mk - s.lo ELSE 0
\* run: the bytes seen by this operation (line, flushed bytes, the transaction's line) are the right ones, in order
Out(op, s, res) == st' = [s EXCEPT !.steps = @ + 1]
                   /\ obs' = [op |-> op, r |-> [res |-> res, iused |-> s.n, ileft |-> s.cap - s.n, len |-> LineLen(s), pend |-> s.pend, oused |-> s.on, oleft |-> s.cap - s.on,
                                                tin |-> IF s.tx THEN LineLen(s) - 1 ELSE -1, tused |-> s.tq, run |-> TRUE]]
New(op) == Out(op, [live |-> TRUE, cap |-> op.cap, lo |-> 0, n |-> 0, mk |-> 0, pend |-> 0, olo |-> 0, on |-> 0, tx |-> FALSE, tq |-> 0, steps |-> 0], 0)
Feed(op) == Out(op, [st EXCEPT !.pend = @ + op.n], 0)
Mark(op) == Out(op, [st EXCEPT !.pend = @ + 1, !.mk = st.lo + st.n + st.pend + 1], 0)
Take(s, k) == [s EXCEPT !.pend = @ - k, !.n = Min(s.cap, @ + k), !.lo = @ + Max(0, s.n + k - s.cap)]
Pull(op) == LET ahead == st.mk - (st.lo + st.n)          \* bytes up to and including the delimiter
                s1 == IF HasLine(st) THEN st ELSE IF ahead > 0 THEN Take(st, ahead) ELSE Take(st, st.pend)
                s2 == IF HasLine(s1) THEN Take(s1, Min(s1.pend, s1.cap - s1.n)) ELSE s1 IN
            Out(op, s2, st.pend - s2.pend)
Gone(s) == LET l == LineLen(s) IN [s EXCEPT !.lo = @ + l, !.n = @ - l, !.mk = 0]
View(op) == Out(op, st, LineLen(st) - 1)
Copy(op) == Out(op, IF HasLine(st) THEN Gone(st) ELSE st, Max(0, LineLen(st) - 1))
DropLine(op) == Out(op, IF HasLine(st) THEN Gone(st) ELSE st, IF HasLine(st) THEN 1 ELSE 0)
Queue(op) == LET k == Min(op.n, st.cap - st.on) IN Out(op, [st EXCEPT !.on = @ + k], k)
Flush(op) == LET k == Min(op.room, st.on) IN Out(op, [st EXCEPT !.on = @ - k, !.olo = @ + k], k)
Begin(op) == Out(op, [st EXCEPT !.tx = HasLine(st), !.tq = 0], IF HasLine(st) THEN 1 ELSE 0)
Reply(op) == LET k == Min(op.n, st.cap - st.on) IN Out(op, [st EXCEPT !.on = @ + k, !.tq = @ + k], k)
Commit(op) == Out(op, [Gone(st) EXCEPT !.tx = FALSE, !.tq = 0], 0)
Abort(op) == Out(op, [Gone(st) EXCEPT !.tx = FALSE, !.tq = 0, !.on = @ - st.tq], 0)
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "feed" -> st.live /\ Feed(op)
              [] op.op = "mark" -> st.live /\ st.mk <= st.lo /\ Mark(op)
              [] op.op = "pull" -> st.live /\ Pull(op)
              [] op.op = "view" -> st.live /\ ~st.tx /\ View(op)
              [] op.op = "copy" -> st.live /\ ~st.tx /\ Copy(op)
              [] op.op = "drop" -> st.live /\ ~st.tx /\ DropLine(op)
              [] op.op = "queue" -> st.live /\ ~st.tx /\ op.v = st.olo + st.on + 1 /\ Queue(op)
              [] op.op = "flush" -> st.live /\ ~st.tx /\ Flush(op)
              [] op.op = "begin" -> st.live /\ ~st.tx /\ Begin(op)
              [] op.op = "reply" -> st.live /\ st.tx /\ op.n <= st.cap - st.on /\ op.v = st.olo + st.on + 1 /\ Reply(op)
              [] op.op = "commit" -> st.live /\ st.tx /\ Commit(op)
              [] op.op = "abort" -> st.live /\ st.tx /\ Abort(op)
Some == Amounts \union {st.cap - 1, st.cap}
MCOps == IF ~st.live THEN {[op |-> "new", cap |-> c] : c \in Caps}
         ELSE IF st.steps > Depth THEN {}
         ELSE LET feeds == {[op |-> "feed", n |-> n] : n \in {m \in Some : (IF HasLine(st) THEN 0 ELSE st.n) + st.pend + m <= st.cap + 2 /\ st.lo < 3}}
                           \union (IF st.mk > st.lo \/ (st.pend = 0 /\ st.n = 0) THEN {} ELSE {[op |-> "mark"]}) \union {[op |-> "pull"]}
                  outs == {[op |-> IF st.tx THEN "reply" ELSE "queue", n |-> n, v |-> st.olo + st.on + 1] : n \in {m \in Some : ~st.tx \/ m <= st.cap - st.on}}
                          \union (IF st.tx \/ st.on = 0 THEN {} ELSE {[op |-> "flush", room |-> n] : n \in Some})
                  ends == {[op |-> o] : o \in IF st.tx THEN {"commit", "abort"} ELSE {"begin"}} IN
              CASE Mode = "in" -> feeds \union {[op |-> o] : o \in {"view", "copy", "drop"}}
                [] Mode = "out" -> outs
                [] OTHER -> (IF HasLine(st) THEN {} ELSE feeds) \union outs \union ends
--------------------------------------------------------------------------------
TypeOK == st.n \in 0 .. st.cap /\ st.on \in 0 .. st.cap /\ st.tq <= st.on /\ (st.tx => HasLine(st))
\* a complete line that waits is not overwritten
Kept == [][ obs'.op.op = "pull" /\ HasLine(st) => LineLen(st') = LineLen(st) ]_vars
Conserved == [][ obs'.op.op = "pull" => st'.lo + st'.n + st'.pend = st.lo + st.n + st.pend ]_vars
================================================================================
