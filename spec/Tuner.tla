---------------------------------- MODULE Tuner ----------------------------------
(* spn::controller::PIDAutotuner (relay method) and PID::autotune around it.          *)
(* Readings are in half units, times in milliseconds.                                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Cfgs, Ins, Runs, Dts, CapEl
VARIABLES st, obs
vars == <<st, obs>>

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* a run: on - output is the upper one; n - cycles counted; el - time since the last switch; th - duration of the last upper phase;
\* hiest, lowest - extremes of the reading since the last switch off / the last return; cyc - amplitude and period of the counted cycles;
\* past - called again although finished
Fresh(c) == [live |-> TRUE, on |-> TRUE, n |-> 0, c |-> c, el |-> 0, th |-> 0, hiest |-> c.target, lowest |-> c.target + 1000, cyc |-> <<>>, past |-> FALSE]
None == [live |-> FALSE, on |-> FALSE, n |-> 0, c |-> <<>>, el |-> 0, th |-> 0, hiest |-> 0, lowest |-> 0, cyc |-> <<>>, past |-> FALSE]
Init == st = None /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]

\* the gains of the first two cycles do not count, unless there are no others
Keep(s, x) == IF s.n >= 2 THEN [s EXCEPT !.cyc = IF s.n = 2 THEN <<x>> ELSE Append(@, x)] ELSE [s EXCEPT !.cyc = <<x>>]
\* the relay: switched by leaving the band, a cycle counted at each return to the upper output
Relay(s0, v, dt) ==
    LET up == s0.c.target + Abs(s0.c.hyst)
        dn == s0.c.target - Abs(s0.c.hyst)
        s == [s0 EXCEPT !.el = @ + dt, !.hiest = Max(@, v), !.lowest = Min(@, v)] IN
    CASE s0.n >= s0.c.cycles -> [s0 EXCEPT !.past = TRUE]
      [] s.on /\ v > up -> [s EXCEPT !.on = FALSE, !.th = s.el, !.el = 0, !.hiest = s.c.target]
      [] ~s.on /\ v < dn -> [Keep(s, [amp |-> s.hiest - s.lowest, tu |-> s.el + s.th])
                             EXCEPT !.on = s.n + 1 < s.c.cycles, !.n = @ + 1, !.el = 0, !.lowest = s.c.target]
      [] OTHER -> s
Level(s) == IF s.n < s.c.cycles /\ s.on THEN s.c.hi ELSE s.c.lo
Done(s) == s.n >= s.c.cycles

\* Ziegler-Nichols, from the ultimate gain 4d / (pi a) and the ultimate period; per T ms: the tuner reports
\* them per interval of the control loop, PID::autotune per second, as set_tunings takes them. A gain is a list of
\* fractions to be averaged, a fraction a list of factors above and below the line; Kp, Ki and Kd are all to be divided by pi.
Kc(m) == IF m = 0 THEN [n |-> 3, d |-> 5] ELSE IF m = 1 THEN [n |-> 33, d |-> 100] ELSE [n |-> 1, d |-> 5]
Td(m) == IF m = 0 THEN [n |-> 1, d |-> 8] ELSE [n |-> 33, d |-> 100]
P(c, y) == [n |-> <<8, c.hi - c.lo, Kc(c.mode).n>>, d |-> <<y.amp, Kc(c.mode).d>>]
I(c, T, y) == [n |-> P(c, y).n \o <<2, T>>, d |-> P(c, y).d \o <<y.tu>>]
D(c, T, y) == [n |-> P(c, y).n \o <<Td(c.mode).n, y.tu>>, d |-> P(c, y).d \o <<Td(c.mode).d, T>>]
Gains(s, T) == [p |-> [k \in 1..Len(s.cyc) |-> P(s.c, s.cyc[k])], i |-> [k \in 1..Len(s.cyc) |-> I(s.c, T, s.cyc[k])], d |-> [k \in 1..Len(s.cyc) |-> D(s.c, T, s.cyc[k])]]

Proj(s) == [done |-> Done(s), cycle |-> IF Done(s) THEN -1 ELSE s.n]
Out(op, s, res) == st' = s /\ obs' = [op |-> op, r |-> [res |-> res] @@ Proj(s)]

Start(op) == Out(op, Fresh(op.c), 0)
Tune(op) == LET s == Relay(st, op.v, op.dt) IN Out(op, s, Level(s))
\* the code's gains are the expected ones
Ask(op) == op.want = Gains(st, st.c.T) /\ Out(op, st, 1)

\* PID::autotune drives the process: op.vs are its readings, one per output set, after which it follows the relay
Reading(op, k, last) == IF k <= Len(op.vs) THEN op.vs[k]
                        ELSE IF last = op.c.hi THEN op.c.target + Abs(op.c.hyst) + 1 ELSE op.c.target - Abs(op.c.hyst) - 1
RECURSIVE Drive(_, _, _, _)
Drive(op, s, outs, last) ==
    IF Done(s) THEN [outs |-> Append(outs, 0), s |-> s]
    ELSE LET s2 == Relay(s, Reading(op, Len(outs) + 1, last), IF s.n = 0 /\ s.el = 0 /\ s.th = 0 /\ s.lowest > s.c.target + 500 THEN 0 ELSE op.c.T) IN
         Drive(op, s2, Append(outs, Level(s2)), Level(s2))
\* warming up first: the upper output, looked at every second, until the reading reaches the starting point or half an hour has passed
Waits(op) == LET S == {k \in 1 .. Len(op.vs) + 1 : Reading(op, k, op.c.hi) >= op.from} IN
             IF S = {} THEN 1800 ELSE CHOOSE k \in 0 .. Len(op.vs) : k + 1 \in S /\ \A j \in S : k + 1 <= j
Warm(op) == [k \in 1 .. Waits(op) |-> op.c.hi] \o <<op.c.lo>>
Driven(op) == LET w == IF op.from > 0 THEN Warm(op) ELSE <<>> IN
              [d |-> Drive(op, Fresh(op.c), w, IF w = <<>> THEN op.c.lo ELSE w[Len(w)]), w |-> w]
Auto(op) == LET x == Driven(op)
                o == x.d.outs
                warm == IF x.w = <<>> THEN 0 ELSE Len(x.w) - 1
                turns == Len(o) - Len(x.w) - 1 IN
            op.want = Gains(x.d.s, 1000)
            /\ st' = None
            \* between two turns the loop is run every millisecond
            /\ obs' = [op |-> op, r |-> [outs |-> o, ms |-> warm * 1000 + turns * op.c.T, loops |-> Len(x.w) + turns * op.c.T, res |-> 1]]

Step(op) == CASE op.op = "start" -> Start(op)
              [] op.op = "tune" -> st.live /\ Tune(op)
              [] op.op = "gains" -> st.live /\ Done(st) /\ ~st.past /\ Ask(op)
              [] op.op = "auto" -> Auto(op)
MCOps == {[op |-> "start", c |-> c] : c \in Cfgs}
         \union (IF st.live THEN {[op |-> "tune", v |-> st.c.target + sg * (Abs(st.c.hyst) + v), dt |-> d] : v \in Ins, sg \in {-1, 1}, d \in {x \in Dts : st.el + x <= CapEl}}
                                 \union (IF Done(st) /\ ~st.past THEN {[op |-> "gains", want |-> Gains(st, st.c.T)]} ELSE {})
                 ELSE {[op |-> "auto", c |-> r.c, vs |-> r.vs, from |-> r.from, want |-> Gains(Driven(r).d.s, 1000)] : r \in Runs})
--------------------------------------------------------------------------------
TypeOK == st.live => st.n \in 0 .. st.c.cycles
OnlyLimits == obs.op.op = "tune" => obs.r.res \in {st.c.lo, st.c.hi}
\* a gain is always there to report and finite: every counted cycle swung through the whole band
Finite == st.live /\ Done(st) => st.cyc # <<>> /\ \A k \in 1..Len(st.cyc) : st.cyc[k].amp > Abs(st.c.hyst) /\ st.cyc[k].tu > 0
InsideBandNothing == [][ (obs'.op.op = "tune" /\ Abs(obs'.op.v - st.c.target) <= Abs(st.c.hyst)) => st'.on = st.on /\ st'.n = st.n /\ st'.cyc = st.cyc ]_vars
Stays == [][ (obs'.op.op = "tune" /\ Done(st)) => Done(st') /\ obs'.r.res = st.c.lo ]_vars
OneAtATime == [][ obs'.op.op = "tune" => st'.n - st.n \in {0, 1} /\ (st'.n > st.n => ~st.on) ]_vars
================================================================================
