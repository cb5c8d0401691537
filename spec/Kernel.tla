---------------------------------- MODULE Kernel ----------------------------------
(* The Zephyr platform: the kernel's clock, sleeping, log and panic, and what the     *)
(* library's clock, delays, log level and halting make of them.                       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Msgs, Steps, Delays, Max
VARIABLES st, obs
vars == <<st, obs>>

Tick == 100                                          \* microseconds
Where == " (log.cpp:7 here)"
Init == st = [live |-> FALSE, level |-> 0, filter |-> -1, us |-> 0, ms |-> 0] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
\* a kernel's clock in microseconds goes by ticks
Seen(s) == [level |-> s.level, filter |-> s.filter, ms |-> s.ms, us |-> s.us - (s.us % Tick)]
Out(op, s, more) == st' = s /\ obs' = [op |-> op, r |-> Seen(s) @@ more]
Quiet == [logged |-> 0, text |-> "", short |-> FALSE, long |-> FALSE, slept |-> FALSE, panic |-> FALSE]
Later(s, us) == LET t == s.us + us IN [s EXCEPT !.us = t % 1000, !.ms = @ + t \div 1000]
Cut(t) == IF Len(t) > Max THEN SubSeq(t, 1, Max) ELSE t
Line(l, t) == Cut(t \o (IF l = 4 THEN Where ELSE ""))
Logs(l, t) == IF l <= st.level THEN [Quiet EXCEPT !.logged = l, !.text = Line(l, t)] ELSE Quiet

New(op) == Out(op, [live |-> TRUE, level |-> op.l, filter |-> op.l, us |-> 0, ms |-> op.ms], Quiet)
\* the kernel's own filter follows the level
Level(op) == Out(op, [st EXCEPT !.level = op.l, !.filter = op.l], Quiet)
Pass(op) == Out(op, Later(st, op.us), Quiet)
\* a delay lasts as long as asked for, and from a millisecond on the processor sleeps for most of it
Delay(op) == Out(op, Later(st, op.us), [Quiet EXCEPT !.slept = op.us >= 1000])
Log(op) == Out(op, st, Logs(op.l, op.msg))
Halt(op) == Out(op, st, [(IF op.msg = "" THEN Quiet ELSE Logs(2, "System halt: " \o op.msg)) EXCEPT !.panic = TRUE])
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "level" -> st.live /\ Level(op)
              [] op.op = "pass" -> st.live /\ Pass(op)
              [] op.op = "delay" -> st.live /\ Delay(op)
              [] op.op = "log" -> st.live /\ Log(op)
              [] op.op = "halt" -> st.live /\ Halt(op)
Picked == IF Delays = {} THEN 0..4 ELSE {0, 3}
MCOps == IF ~st.live THEN {[op |-> "new", l |-> l, ms |-> 0] : l \in Picked}
         ELSE {[op |-> "level", l |-> l] : l \in Picked} \union {[op |-> "pass", us |-> u] : u \in IF st.ms < 2 THEN Steps ELSE {}}
              \union {[op |-> "delay", us |-> u, how |-> h] : u \in IF st.ms < 2 THEN Delays ELSE {}, h \in {"delay_us", "delay_us_int"}}
              \union {[op |-> "delay", us |-> 1000 * u, how |-> h] : u \in IF st.ms < 2 THEN {1, 2} ELSE {}, h \in {"delay", "delay_ms", "delay_ms_int"}}
              \union {[op |-> "log", l |-> l, msg |-> m] : l \in 1..4, m \in Msgs}
              \union {[op |-> "halt", msg |-> m] : m \in {"", "smoke"}}
--------------------------------------------------------------------------------
TypeOK == st.us \in 0..999 /\ st.level \in 0..4
\* the two filters never disagree: what is turned off stays silent
Agree == st.live => st.filter = st.level
Enabled == obs.op.op = "log" => (obs.r.logged = IF obs.op.l <= st.level THEN obs.op.l ELSE 0)
OnlyForward == [][ obs'.op.op # "new" => st'.ms * 1000 + st'.us >= st.ms * 1000 + st.us ]_vars
================================================================================
