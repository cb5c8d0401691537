---------------------------------- MODULE Log ----------------------------------
(* spn::logging: the level, the uptime, and what each call prints.                   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Msgs, Bases, Advs, Max, Dbg
VARIABLES st, obs
vars == <<st, obs>>

Levels == 1..4                                       \* 0 turns everything off
Name == <<"ERR", "WARN", "INFO", "DBG">>
Where == " (log.cpp:7 here)"                         \* where the adapter logs from: shown for debug messages

\* the uptime is st.hi * 10000 + st.lo ms
Init == st = [live |-> FALSE, level |-> 0, hi |-> 0, lo |-> 0] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, s, text) == st' = s /\ obs' = [op |-> op, r |-> [boot |-> IF Dbg THEN 4 ELSE 3,     \* the level the program starts with
                                              out |-> text, level |-> s.level, on |-> [l \in Levels |-> IF l <= s.level THEN 1 ELSE 0]]]
RECURSIVE Pad(_, _)
Pad(t, n) == IF Len(t) < n THEN Pad("0" \o t, n) ELSE t
Uptime == Pad((IF st.hi = 0 THEN "" ELSE ToString(st.hi)) \o Pad(ToString(st.lo), 4), 8)
Cut(t) == IF Len(t) > Max THEN SubSeq(t, 1, Max) ELSE t
Line(l, text) == Cut("[" \o Uptime \o "] [" \o Name[l] \o "] " \o text \o (IF l = 4 THEN Where ELSE "")) \o "\n"
Text(op) == CASE op.how = "number" -> ToString(op.n) \o "|" \o op.msg
              [] OTHER -> op.msg
\* debug messages are compiled in in debug builds only
Compiled(op) == op.l < 4 \/ op.how # "alias" \/ Dbg
Log(op) == Out(op, st, IF Compiled(op) /\ op.l <= st.level THEN Line(op.l, Text(op)) ELSE "")
Step(op) == CASE op.op = "new" -> Out(op, [live |-> TRUE, level |-> op.l, hi |-> op.hi, lo |-> op.lo], "")
              [] op.op = "level" -> st.live /\ Out(op, [st EXCEPT !.level = op.l], "")
              [] op.op = "adv" -> st.live /\ Out(op, [st EXCEPT !.hi = @ + ((st.lo + op.d) \div 10000), !.lo = (@ + op.d) % 10000], "")
              [] op.op = "log" -> st.live /\ Log(op)
MCOps == IF ~st.live THEN {[op |-> "new", l |-> l, hi |-> b[1], lo |-> b[2]] : l \in 0..4, b \in Bases}
         ELSE {[op |-> "level", l |-> l] : l \in 0..4}
              \union {o \in {[op |-> "adv", d |-> d] : d \in Advs} : \E b \in Bases : st.hi = b[1] /\ st.lo = b[2]}
              \union {[op |-> "log", l |-> l, how |-> h, n |-> n, msg |-> m] : l \in Levels, h \in {"plain", "string", "alias"}, n \in {0}, m \in Msgs}
              \union {[op |-> "log", l |-> l, how |-> "number", n |-> n, msg |-> m] : l \in Levels, n \in {0, -17, 123456}, m \in Msgs}
--------------------------------------------------------------------------------
TypeOK == st.level \in 0..4
Enabled == obs.op.op = "log" => ((obs.r.out # "") = (Compiled(obs.op) /\ obs.op.l <= st.level))
Bounded == obs.op.op = "log" => Len(obs.r.out) <= Max + 1
Quiet == [][ obs'.op.op # "log" => obs'.r.out = "" ]_vars
================================================================================
