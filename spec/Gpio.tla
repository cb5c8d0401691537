---------------------------------- MODULE Gpio ----------------------------------
(* One digital and one analogue output. Analogue values are in 64ths, so that all of  *)
(* the real arithmetic is exact. What is passed on to the pins is shown with its time. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Setpoints, Increments, Intervals
VARIABLES st, obs
vars == <<st, obs>>

Init == st = [live |-> FALSE, own |-> TRUE, dig |-> FALSE, val |-> 0] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
(* the pins of the platform's own outputs cannot be watched: those only show what they report and how long it takes *)
Out(op, s, pins, took) == st' = s /\ obs' = [op |-> op, r |-> [pins |-> IF s.own THEN pins ELSE <<>>, took |-> took, dig |-> s.dig, val |-> s.val]]
Pin(what, v, at) == [w |-> what, v |-> v, at |-> at]
B(x) == IF x THEN 1 ELSE 0

New(op) == Out(op, [live |-> TRUE, own |-> op.how = "own", dig |-> FALSE, val |-> 0], <<>>, 0)
DigInit(op) == Out(op, [st EXCEPT !.dig = op.v], <<Pin("init", 0, 0), Pin("dig", B(op.v), 0)>>, 0)
DigSet(op) == Out(op, [st EXCEPT !.dig = op.v], <<Pin("dig", B(op.v), 0)>>, 0)
Flip(op) == Out(op, [st EXCEPT !.dig = ~@], <<Pin("dig", B(~st.dig), 0)>>, 0)
Set(op) == Out(op, [st EXCEPT !.val = op.v], <<Pin("ana", op.v, 0)>>, 0)
(* fading: one increment at a time, the last step to the setpoint, waiting after each *)
RECURSIVE Fade(_, _, _, _)
Fade(v, op, dir, at) == LET left == (op.to - v) * dir
                            next == IF left > op.inc THEN v + dir * op.inc ELSE op.to IN
                        IF left = 0 THEN <<>> ELSE <<Pin("ana", next, at)>> \o Fade(next, op, dir, at + op.ms)
Gap(op) == IF op.to > st.val THEN op.to - st.val ELSE st.val - op.to
FadeTo(op) == LET dir == IF op.to > st.val THEN 1 ELSE -1
                  pins == IF op.inc <= 0 \/ Gap(op) < op.inc THEN <<Pin("ana", op.to, 0)>> ELSE Fade(st.val, op, dir, 0) IN
              Out(op, [st EXCEPT !.val = op.to], pins, IF op.inc <= 0 \/ Gap(op) < op.inc THEN 0 ELSE op.ms * Len(pins))
(* the amount and the pace of fading may be left out: a tenth at a time, one every 250 ms *)
Pace == 250
(* a tenth is not a whole number of 64ths: steps in between are not compared, the time they take together is *)
Tenths(d) == (10 * d) \div 64
Whole(d) == (10 * d) % 64 = 0
FadeBare(op) == LET n == IF Gap(op) * 10 < 64 THEN 0 ELSE IF Whole(Gap(op)) THEN Tenths(Gap(op)) ELSE Tenths(Gap(op)) + 1 IN
                Out(op, [st EXCEPT !.val = op.to], <<>>, n * Pace)
AnaInit(op) == Out(op, [st EXCEPT !.val = 0], <<Pin("ana", 0, 0)>>, 0)
(* nothing is connected to the inputs of the native platform *)
Inputs(op) == st' = st /\ obs' = [op |-> op, r |-> [digital |-> FALSE, analogue |-> 0, took |-> 0]]
(* what is connected to inputs of one's own is seen through their bases; the trigger asked for and detaching arrive *)
Sense(op) == st' = st /\ obs' = [op |-> op, r |-> [state |-> op.v, read |-> op.a, inits |-> 4, trigger |-> op.trig, called |-> op.call, detached |-> 1]]
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "diginit" -> st.live /\ DigInit(op)
              [] op.op = "digset" -> st.live /\ DigSet(op)
              [] op.op = "flip" -> st.live /\ Flip(op)
              [] op.op = "set" -> st.live /\ Set(op)
              [] op.op = "fade" -> IF op.how = "full" \/ (op.how = "pace" /\ op.ms = Pace) THEN FadeTo(op)
                                   ELSE ~st.own /\ (st.val = op.to \/ ~Whole(Gap(op))) /\ FadeBare(op)
              [] op.op = "anainit" -> AnaInit(op)
              [] op.op = "inputs" -> Inputs(op)
              [] op.op = "sense" -> Sense(op)
MCOps == IF ~st.live THEN {[op |-> "new", how |-> h] : h \in {"own", "platform"}}
         ELSE {[op |-> "diginit", v |-> v, dflt |-> FALSE] : v \in BOOLEAN} \union {[op |-> "diginit", v |-> FALSE, dflt |-> TRUE]}
              \union {[op |-> "digset", v |-> v, how |-> h] : v \in BOOLEAN, h \in {"bool", "state"}} \union {[op |-> "flip"]}
              \union {[op |-> "set", v |-> v] : v \in Setpoints}
              \union {[op |-> "fade", to |-> v, inc |-> i, ms |-> m, how |-> "full"] : v \in Setpoints, i \in Increments, m \in Intervals}
              \union {[op |-> "fade", to |-> v, inc |-> i, ms |-> Pace, how |-> "pace"] : v \in Setpoints, i \in Increments}
              \union {[op |-> "fade", to |-> v, inc |-> 0, ms |-> 0, how |-> "bare"] : v \in Setpoints}
              \union {[op |-> "anainit"], [op |-> "inputs"]}
              \union {[op |-> "sense", v |-> v, a |-> a, trig |-> t, call |-> c] : v \in BOOLEAN, a \in Setpoints \cap {0, 1, 64}, t \in 0..3, c \in BOOLEAN}
--------------------------------------------------------------------------------
TypeOK == st.val \in 0..64
Fading == obs.op.op = "fade" /\ st.own
Pins == IF "pins" \in DOMAIN obs.r THEN obs.r.pins ELSE <<>>
EndsThere == Fading => (Pins = <<>> \/ Pins[Len(Pins)].v = obs.op.to) /\ st.val = obs.op.to
SmallSteps == Fading => \A i \in 2..Len(Pins) : LET d == Pins[i].v - Pins[i - 1].v IN d <= obs.op.inc /\ d >= -obs.op.inc
Monotone == Fading => \/ \A i \in 2..Len(Pins) : Pins[i].v > Pins[i - 1].v
                      \/ \A i \in 2..Len(Pins) : Pins[i].v < Pins[i - 1].v
Spaced == Fading => \A i \in 2..Len(Pins) : Pins[i].at - Pins[i - 1].at = obs.op.ms
Between(v, x, y) == IF x <= y THEN x <= v /\ v <= y ELSE y <= v /\ v <= x
Stays(v, x, op) == IF x <= op.to THEN v - x <= op.inc ELSE x - v <= op.inc
FadeFine(op, pins, x) == /\ pins # <<>> \/ x = op.to \/ ~st.own
                         /\ \A i \in 1..Len(pins) : Between(pins[i].v, x, op.to)
                         /\ (op.inc > 0 /\ pins # <<>>) => Stays(pins[1].v, x, op)
Within == [][ obs'.op.op = "fade" => FadeFine(obs'.op, obs'.r.pins, st.val) ]_vars
================================================================================
