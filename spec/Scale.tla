---------------------------------- MODULE Scale ----------------------------------
(* Containers too large to write out: the content is always the run of numbers        *)
(* st.lo + 1 .. st.lo + st.n. Amounts and capacities go beyond what 8 and 16 bits hold.*)
EXTENDS Integers, Sequences, TLC
CONSTANTS Kinds, Caps, Amounts, Depth
VARIABLES st, obs
vars == <<st, obs>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Init == st = [live |-> FALSE, kind |-> "", cap |-> 0, lo |-> 0, n |-> 0, over |-> 0, steps |-> 0] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
\* run: everything in between is there, in order
Out(op, s, res) == st' = [s EXCEPT !.steps = @ + 1] /\ obs' = [op |-> op, r |-> [res |-> res, used |-> s.n, free |-> s.cap - s.n, empty |-> s.n = 0, full |-> s.n = s.cap,
                                                       first |-> IF s.n = 0 THEN 0 ELSE s.lo + 1, last |-> IF s.n = 0 THEN 0 ELSE s.lo + s.n, run |-> TRUE, over |-> s.over]]
New(op) == Out(op, [live |-> TRUE, kind |-> op.kind, cap |-> op.cap, lo |-> 0, n |-> 0, over |-> 0, steps |-> 0], 0)
\* op.n numbers from op.v on, in one call or one after the other
Push(op) == LET k == Min(op.n, st.cap - st.n)  lost == Max(0, st.n + op.n - st.cap) IN
            IF op.roll THEN Out(op, [st EXCEPT !.n = Min(st.cap, @ + op.n), !.lo = @ + lost, !.over = @ + lost], op.n)
            ELSE Out(op, [st EXCEPT !.n = @ + k], k)
\* op.n numbers from op.v down, at the front
PushFront(op) == LET k == Min(op.n, st.cap - st.n) IN Out(op, [st EXCEPT !.n = @ + k, !.lo = @ - k], k)
\* in one call: all or nothing
Pop(op) == LET k == IF op.bulk THEN (IF op.n > st.n THEN 0 ELSE op.n) ELSE Min(op.n, st.n) IN Out(op, [st EXCEPT !.n = @ - k, !.lo = @ + k, !.over = IF k > 0 THEN 0 ELSE @], k)
PopBack(op) == LET k == Min(op.n, st.n) IN Out(op, [st EXCEPT !.n = @ - k], k)
DropLast(op) == LET k == Min(op.n, st.n) IN Out(op, [st EXCEPT !.n = @ - k, !.over = Max(0, @ - k)], k)
DropFirst(op) == LET k == Min(op.n, st.n) IN Out(op, [st EXCEPT !.n = @ - k, !.lo = @ + k], k)
Ring == st.live /\ st.kind = "ring"
Vec == st.live /\ st.kind = "vector"
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "push" -> (Ring \/ (st.live /\ ~op.roll /\ ~op.bulk)) /\ op.v = st.lo + st.n + 1 /\ Push(op)
              [] op.op = "pushf" -> Vec /\ op.v = st.lo /\ PushFront(op)
              [] op.op = "pop" -> (Ring \/ (Vec /\ ~op.bulk)) /\ Pop(op)
              [] op.op = "popb" -> st.live /\ st.kind # "ring" /\ PopBack(op)
              [] op.op = "dropl" -> Ring /\ op.n > 0 /\ DropLast(op)
              [] op.op = "dropf" -> Ring /\ op.n > 0 /\ st.over = 0 /\ DropFirst(op)
Some == Amounts \union {st.cap - 1, st.cap, st.cap + 1}
MCOps == IF ~st.live THEN {[op |-> "new", kind |-> k, cap |-> c] : k \in Kinds, c \in Caps}
         ELSE IF st.steps > Depth THEN {} ELSE CASE st.kind = "ring" -> {[op |-> "push", n |-> n, v |-> st.lo + st.n + 1, roll |-> r, bulk |-> b] : n \in IF st.lo < st.cap THEN Some ELSE {}, r \in BOOLEAN, b \in BOOLEAN}
                                       \union {[op |-> "pop", n |-> n, bulk |-> b] : n \in Some, b \in BOOLEAN} \union {[op |-> "dropl", n |-> n] : n \in Some}
                                       \union {[op |-> "dropf", n |-> n] : n \in IF st.over = 0 THEN Some ELSE {}}
                [] st.kind = "vector" -> {[op |-> "push", n |-> n, v |-> st.lo + st.n + 1, roll |-> FALSE, bulk |-> FALSE] : n \in IF st.lo + st.n < 2 * st.cap THEN Some ELSE {}}
                                         \union {[op |-> "pushf", n |-> n, v |-> st.lo] : n \in IF st.lo <= -st.cap THEN {} ELSE IF st.cap < 1000 THEN Some ELSE Amounts}
                                         \union {[op |-> "pop", n |-> n, bulk |-> FALSE] : n \in Some} \union {[op |-> "popb", n |-> n] : n \in Some}
                [] OTHER -> {[op |-> "push", n |-> n, v |-> st.lo + st.n + 1, roll |-> FALSE, bulk |-> FALSE] : n \in Some} \union {[op |-> "popb", n |-> n] : n \in Some}
--------------------------------------------------------------------------------
TypeOK == st.n \in 0 .. st.cap /\ st.over >= 0
Conserved == [][ (obs'.op.op \in {"pop", "popb", "dropl", "dropf"}) => st'.n + obs'.r.res = st.n ]_vars
================================================================================
