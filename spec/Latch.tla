---------------------------------- MODULE Latch ----------------------------------
(* spn::controller::SRLatch. el: time in the present state, counted no further than   *)
(* any limit can tell apart; the latch starts as if off for its minimum off time.     *)
(* All times are multiples of a unit chosen with the latch, 1 ms to beyond 2^32 ms.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Cfgs, Readings, Advs, Bases, Units
VARIABLES st, obs
vars == <<st, obs>>

Init == st = [live |-> FALSE, on |-> FALSE, el |-> 0, c |-> <<>>] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, s) == st' = s /\ obs' = [op |-> op, r |-> [on |-> s.on]]
Max(a, b) == IF a > b THEN a ELSE b
Lim(c) == 1 + Max(Max(c.minon, c.maxon), Max(c.minoff, c.maxoff))

New(op) == Out(op, [live |-> TRUE, on |-> FALSE, el |-> op.c.minoff, c |-> op.c])
Adv(op) == Out(op, [st EXCEPT !.el = IF @ + op.d > Lim(st.c) THEN Lim(st.c) ELSE @ + op.d])
Least == IF st.on THEN st.c.minon ELSE st.c.minoff
Most == IF st.on THEN st.c.maxon ELSE st.c.maxoff          \* 0: no maximum
Forced == Most # 0 /\ st.el > Most
Wanted(v) == IF v > st.c.high THEN TRUE ELSE IF v < st.c.low THEN FALSE ELSE st.on
Read(op) == LET to == IF st.el < Least THEN st.on ELSE IF Forced THEN ~st.on ELSE Wanted(op.v) IN
            Out(op, IF to = st.on THEN st ELSE [st EXCEPT !.on = to, !.el = 0])
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "adv" -> st.live /\ Adv(op)
              [] op.op = "read" -> st.live /\ Read(op)
MCOps == IF ~st.live THEN {[op |-> "new", c |-> c, base |-> b, unit |-> u] : c \in Cfgs, b \in Bases, u \in Units}
         ELSE {[op |-> "adv", d |-> d] : d \in Advs} \union {[op |-> "read", v |-> v] : v \in Readings}
--------------------------------------------------------------------------------
TypeOK == st.on \in BOOLEAN /\ st.el >= 0
OnlyByReading == [][ (st.live /\ st.on # st'.on) => obs'.op.op = "read" ]_vars
StaysMinimum == [][ (st.live /\ st.on # st'.on) => st.el >= Least ]_vars
NotPastMaximum == [][ (obs'.op.op = "read" /\ Forced /\ st.el >= Least) => st'.on # st.on ]_vars
Hysteresis == [][ (st.live /\ st.on # st'.on /\ ~Forced) => IF st'.on THEN obs'.op.v > st.c.high ELSE obs'.op.v < st.c.low ]_vars
================================================================================
