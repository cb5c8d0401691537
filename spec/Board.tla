---------------------------------- MODULE Board ----------------------------------
(* The Arduino platform on a board whose pins, interrupts, serial port and clock are  *)
(* data: what the library's objects make of the board, and what they report of it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Families, Values, Steps, Rooms, Timeouts, Bytes, Lens
VARIABLES st, obs
vars == <<st, obs>>

(* pin modes: -1 untouched, 0 input, 1 output, 2 input with its pull-up *)
(* triggers: 0 rising, 1 falling, 2 both, 3 none given. Callbacks: 0 none, 1, 2 *)
Blank == [fam |-> "", live |-> FALSE, inv |-> FALSE, inv2 |-> FALSE, pull |-> FALSE, omode |-> -1, imode |-> -1, level |-> -1, on |-> FALSE,
          duty |-> <<-1, -1>>, val |-> <<0, 0>>, own |-> <<>>, att |-> <<>>, imodes |-> <<-1, -1>>,
          rx |-> <<>>, tx |-> <<>>, room |-> 0, wait |-> 0, timeout |-> 0, ms |-> 0, us |-> 0, baud |-> 0, heap |-> 0]
Init == /\ st = Blank /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, s, r) == st' = s /\ obs' = [op |-> op, r |-> r]
Bit(b) == IF b THEN 1 ELSE 0
Inside(m, p) == IF p THEN 2 ELSE m
--------------------------------------------------------------------------------
(* digital pins *)
Digital(s) == [omode |-> s.omode, level |-> s.level, on |-> s.on, imode |-> s.imode, stray |-> FALSE]
NewDigital(op) == LET s == [Blank EXCEPT !.fam = "digital", !.live = TRUE, !.inv = op.inv, !.pull = op.pull] IN Out(op, s, Digital(s))
Drive(s, v) == [s EXCEPT !.on = v, !.level = Bit(v # s.inv)]
OutInit(op) == LET s == Drive([st EXCEPT !.omode = 1], op.v) IN Out(op, s, Digital(s))
OutSet(op) == LET s == Drive(st, op.v) IN Out(op, s, Digital(s))
Flip(op) == LET s == Drive(st, ~st.on) IN Out(op, s, Digital(s))
InInit(op) == LET s == [st EXCEPT !.imode = Inside(0, st.pull)] IN Out(op, s, Digital(s))
InRead(op) == Out(op, st, Digital(st) @@ [seen |-> op.v])
--------------------------------------------------------------------------------
(* analogue pins: a duty is in 64ths of fully on, whatever the resolution; -1: nothing written *)
Analogue(s) == [duty |-> s.duty, val |-> s.val, imode |-> s.imode, ends |-> <<s.duty[1] \in {0, 64}, s.duty[2] \in {0, 64}>>, stray |-> FALSE]
NewAnalogue(op) == LET s == [Blank EXCEPT !.fam = "analogue", !.live = TRUE, !.inv = op.inv, !.inv2 = op.inv2, !.pull = op.pull] IN Out(op, s, Analogue(s))
Inv(k) == IF k = 1 THEN st.inv ELSE st.inv2
Put(s, k, v) == [s EXCEPT !.val[k] = v, !.duty[k] = IF Inv(k) THEN 64 - v ELSE v]
AnaInit(op) == LET s == Put(st, op.k, 0) IN Out(op, s, Analogue(s))
AnaSet(op) == LET s == Put(st, op.k, op.v) IN Out(op, s, Analogue(s))
AinInit(op) == LET s == [st EXCEPT !.imode = IF st.pull THEN 2 ELSE @] IN Out(op, s, Analogue(s))
AinRead(op) == Out(op, st, Analogue(st) @@ [read |-> op.raw])
--------------------------------------------------------------------------------
(* interrupts: own is what each is set up with, att what is attached on the board *)
None == [cb |-> 0, trig |-> 3]
Irqs(s) == [imodes |-> s.imodes, attached |-> <<s.att[1].cb, s.att[2].cb>>, stray |-> FALSE]
NewIrq(op) == LET s == [Blank EXCEPT !.fam = "irq", !.live = TRUE, !.pull = op.pull, !.own = <<[cb |-> op.cb1, trig |-> op.trig1], [cb |-> op.cb2, trig |-> op.trig2]>>, !.att = <<None, None>>]
              IN Out(op, s, Irqs(s) @@ [fired |-> 0])
\* what is not given is what was last given
Given(k, op) == [cb |-> IF op.cb # 0 THEN op.cb ELSE st.own[k].cb, trig |-> IF op.trig # 3 THEN op.trig ELSE st.own[k].trig]
Complete(g) == g.cb # 0 /\ g.trig # 3
Attach(op) == LET g == Given(op.k, op) s == [st EXCEPT !.own[op.k] = g, !.att[op.k] = g] IN Out(op, s, Irqs(s) @@ [fired |-> 0])
Detach(op) == LET s == [st EXCEPT !.att[op.k] = None] IN Out(op, s, Irqs(s) @@ [fired |-> 0])
IrqInit(op) == LET s == [st EXCEPT !.imodes[op.k] = Inside(0, st.pull)] IN Out(op, s, Irqs(s) @@ [fired |-> 0])
Fires(a, edge) == a.cb # 0 /\ a.trig \in {edge, 2}
Edge(op) == Out(op, st, Irqs(st) @@ [fired |-> IF Fires(st.att[op.k], op.edge) THEN st.att[op.k].cb ELSE 0])
--------------------------------------------------------------------------------
(* the serial port: reading waits no longer than the time-out for what has not arrived *)
Serial(s) == [avail |-> Len(s.rx), room |-> s.room, tx |-> s.tx, ms |-> s.ms, clean |-> TRUE]
NewSerial(op) == LET s == [Blank EXCEPT !.fam = "serial", !.live = TRUE, !.room = op.room, !.timeout = op.timeout, !.wait = 1000] IN Out(op, s, Serial(s) @@ [res |-> 0, data |-> <<>>])
SerialInit(op) == LET s == [st EXCEPT !.wait = st.timeout] IN Out(op, s, Serial(s) @@ [res |-> 0, data |-> <<>>])
Arrive(op) == LET s == [st EXCEPT !.rx = @ \o op.vs] IN Out(op, s, Serial(s) @@ [res |-> 0, data |-> <<>>])
Drain(op) == LET s == [st EXCEPT !.room = op.room, !.tx = <<>>] IN Out(op, s, Serial(s) @@ [res |-> 0, data |-> <<>>])
ReadOne(op) == LET n == IF st.rx = <<>> THEN 0 ELSE 1 s == [st EXCEPT !.rx = SubSeq(@, n + 1, Len(@))]
               IN Out(op, s, Serial(s) @@ [res |-> n, data |-> SubSeq(st.rx, 1, n)])
ReadMany(op) == LET n == IF Len(st.rx) < op.n THEN Len(st.rx) ELSE op.n s == [st EXCEPT !.rx = SubSeq(@, n + 1, Len(@)), !.ms = IF n < op.n THEN @ + st.wait ELSE @]
                IN Out(op, s, Serial(s) @@ [res |-> n, data |-> SubSeq(st.rx, 1, n)])
Write(op) == LET n == IF st.room < Len(op.vs) THEN st.room ELSE Len(op.vs) s == [st EXCEPT !.tx = @ \o SubSeq(op.vs, 1, n), !.room = @ - n]
             IN Out(op, s, Serial(s) @@ [res |-> n, data |-> <<>>])
Flush(op) == Out(op, st, Serial(st) @@ [res |-> 1, data |-> <<>>])
--------------------------------------------------------------------------------
(* clock and monitor *)
Clock(s) == [ms |-> s.ms, us |-> s.us, baud |-> s.baud]
NewClock(op) == LET s == [Blank EXCEPT !.fam = "clock", !.live = TRUE] IN Out(op, s, Clock(s))
Begin(op) == LET s == [st EXCEPT !.baud = IF op.baud = 0 THEN @ ELSE op.baud] IN Out(op, s, Clock(s))
\* the core's two clocks: st.us counts microseconds beyond st.ms
Spend(us) == LET t == st.us + us IN [st EXCEPT !.us = t % 1000, !.ms = @ + t \div 1000]
Wait(op) == LET s == Spend(op.us) IN Out(op, s, Clock(s))
\* a printed text arrives whole; one put together by printf is cut to 255 characters
Say(op) == Out(op, st, Clock(st) @@ [length |-> (IF op.how = "printf" /\ op.len > 255 THEN 255 ELSE op.len) + (IF op.how = "println" THEN 2 ELSE 0), right |-> TRUE])
\* what the heap takes is not free any more
Grow(op) == LET s == [st EXCEPT !.heap = @ + op.n] IN Out(op, s, Clock(s) @@ [lost |-> op.n])
Halt(op) == LET s == [st EXCEPT !.ms = @ + 2000] IN Out(op, s, Clock(s) @@ [halted |-> TRUE, told |-> TRUE])
--------------------------------------------------------------------------------
Step(op) == CASE op.op = "newdigital" -> NewDigital(op) [] op.op = "outinit" -> st.fam = "digital" /\ OutInit(op)
              [] op.op = "outset" -> st.fam = "digital" /\ OutSet(op) [] op.op = "flip" -> st.fam = "digital" /\ Flip(op)
              [] op.op = "ininit" -> st.fam = "digital" /\ InInit(op) [] op.op = "inread" -> st.fam = "digital" /\ InRead(op)
              [] op.op = "newanalogue" -> NewAnalogue(op) [] op.op = "anainit" -> st.fam = "analogue" /\ AnaInit(op)
              [] op.op = "anaset" -> st.fam = "analogue" /\ AnaSet(op) [] op.op = "aininit" -> st.fam = "analogue" /\ AinInit(op)
              [] op.op = "ainread" -> st.fam = "analogue" /\ AinRead(op)
              [] op.op = "newirq" -> NewIrq(op) [] op.op = "attach" -> IF st.fam = "irq" THEN Complete(Given(op.k, op)) /\ Attach(op) ELSE FALSE
              [] op.op = "detach" -> st.fam = "irq" /\ Detach(op) [] op.op = "irqinit" -> st.fam = "irq" /\ IrqInit(op)
              [] op.op = "edge" -> IF st.fam = "irq" THEN Edge(op) ELSE FALSE
              [] op.op = "newserial" -> NewSerial(op) [] op.op = "serialinit" -> st.fam = "serial" /\ SerialInit(op)
              [] op.op = "arrive" -> st.fam = "serial" /\ Arrive(op) [] op.op = "drain" -> st.fam = "serial" /\ Drain(op)
              [] op.op = "readone" -> st.fam = "serial" /\ ReadOne(op) [] op.op = "readmany" -> st.fam = "serial" /\ ReadMany(op)
              [] op.op = "write" -> st.fam = "serial" /\ Write(op) [] op.op = "flush" -> st.fam = "serial" /\ Flush(op)
              [] op.op = "newclock" -> NewClock(op) [] op.op = "begin" -> st.fam = "clock" /\ Begin(op)
              [] op.op = "wait" -> st.fam = "clock" /\ Wait(op) [] op.op = "say" -> st.fam = "clock" /\ Say(op) [] op.op = "grow" -> st.fam = "clock" /\ Grow(op) [] op.op = "halt" -> st.fam = "clock" /\ Halt(op)
OpsNew == (IF "digital" \in Families THEN {[op |-> "newdigital", inv |-> i, pull |-> p] : i \in BOOLEAN, p \in BOOLEAN} ELSE {})
     \union (IF "analogue" \in Families THEN {[op |-> "newanalogue", inv |-> i, inv2 |-> j, res |-> a, res2 |-> b, pull |-> p] :
                                              i \in BOOLEAN, j \in BOOLEAN, a \in {8, 12}, b \in {8, 10}, p \in BOOLEAN} ELSE {})
     \union (IF "irq" \in Families THEN {[op |-> "newirq", cb1 |-> c, trig1 |-> t, cb2 |-> d, trig2 |-> u, pull |-> c = 0] : c \in 0..1, t \in {0, 3}, d \in {0, 2}, u \in {1, 2}} ELSE {})
     \union (IF "serial" \in Families THEN {[op |-> "newserial", room |-> r, timeout |-> t] : r \in Rooms, t \in Timeouts} ELSE {})
     \union (IF "clock" \in Families THEN {[op |-> "newclock"]} ELSE {})
MCOps == IF ~st.live THEN OpsNew ELSE
         CASE st.fam = "digital" -> {[op |-> o, v |-> v] : o \in {"outinit", "inread"}, v \in BOOLEAN} \union {[op |-> "outset", v |-> v, how |-> h] : v \in BOOLEAN, h \in {"bool", "state"}}
                                    \union {[op |-> "flip"], [op |-> "ininit"]}
           [] st.fam = "analogue" -> {[op |-> "anainit", k |-> k] : k \in 1..2} \union {[op |-> "anaset", k |-> k, v |-> v] : k \in 1..2, v \in Values}
                                     \union {[op |-> "aininit"]} \union {[op |-> "ainread", raw |-> r] : r \in {0, 1, 512, 1023}}
           [] st.fam = "irq" -> {o \in {[op |-> "attach", k |-> k, cb |-> c, trig |-> t] : k \in 1..2, c \in 0..2, t \in 0..3} : Complete(Given(o.k, o))}
                                \union {[op |-> o, k |-> k] : o \in {"detach", "irqinit"}, k \in 1..2} \union {[op |-> "edge", k |-> k, edge |-> e] : k \in 1..2, e \in 0..1}
           [] st.fam = "serial" -> {[op |-> "serialinit"], [op |-> "flush"]} \union {[op |-> "readone"]} \union {[op |-> "readmany", n |-> n, how |-> h] : n \in {m \in Lens : m <= Len(st.rx) \/ st.ms < 4}, h \in {"bytes", "chars"}}
                                   \union {[op |-> "arrive", vs |-> v] : v \in IF Len(st.rx) < 2 THEN {<<b>> : b \in Bytes} ELSE {}}
                                   \union {[op |-> "write", vs |-> <<b>>, how |-> h] : b \in IF Len(st.tx) < 2 THEN Bytes ELSE {}, h \in {"byte", "bytes"}}
                                   \union {[op |-> "write", vs |-> <<65, 0>>, how |-> h] : h \in IF Len(st.tx) = 0 THEN {"bytes", "chars", "view"} ELSE {}}
                                   \union {[op |-> "drain", room |-> r] : r \in Rooms}
           [] st.fam = "clock" -> {[op |-> "begin", baud |-> b] : b \in {0, 9600}} \union {[op |-> "wait", us |-> u, how |-> h] : u \in IF st.ms < 3 THEN Steps ELSE {}, h \in {"delay_us", "delay_us_int"}}
                                  \union {[op |-> "wait", us |-> 1000 * u, how |-> h] : u \in IF st.ms < 3 THEN {1, 3} ELSE {}, h \in {"delay", "delay_ms", "delay_ms_int"}}
                                  \union {[op |-> "say", len |-> n, how |-> h] : n \in {0, 1, 300}, h \in {"print", "printlit", "println"}}
                                  \union {[op |-> "say", len |-> n, how |-> "printf"] : n \in {2, 3, 254, 255, 256, 300}}
                                  \union {[op |-> "grow", n |-> n] : n \in IF st.heap < 1 THEN {16, 1000} ELSE {}}
                                  \union {[op |-> "halt", msg |-> m] : m \in IF st.ms < 3 THEN BOOLEAN ELSE {}}
--------------------------------------------------------------------------------
TypeOK == st.omode \in -1 .. 2 /\ st.us < 1000
\* an output that is off, or on, is so on the pin, with its sense
Sense == st.fam = "digital" /\ st.level # -1 => (st.level = 1) = (st.on # st.inv)
\* what is attached is what was asked for last
AsAsked == st.fam = "irq" => \A k \in 1..2 : st.att[k] \in {None, st.own[k]}
\* the serial port invents and loses nothing
Order == [][ st.fam = "serial" /\ st'.fam = "serial" => CASE Len(st'.rx) < Len(st.rx) -> obs'.r.data \o st'.rx = st.rx
                                                          [] OTHER -> st'.rx = st.rx \/ obs'.op.op \in {"arrive", "newserial"} ]_vars
================================================================================
