---------------------------------- MODULE Pid ----------------------------------
(* spn::controller::PID and its backend. Readings, setpoints, limits and tunings are  *)
(* whole numbers, T the sample interval in ms; outputs are in thousandths, exactly,   *)
(* and the code's (floating point) output must be the nearest hundredth.              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Tunes, Limits, Ts, Ins, Sps, Advs, Dirs, Props, Wraps, CapT, Outs
VARIABLES st, obs
vars == <<st, obs>>

Init == /\ st = [live |-> FALSE, wrap |-> FALSE, kp |-> 0, ki |-> 0, kd |-> 0, onerr |-> TRUE, rev |-> FALSE, T |-> 100, lo |-> 0, hi |-> 255000,
                 I |-> 0, last |-> 0, out |-> 0, inp |-> 0, sp |-> 0, el |-> 0]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Grid(x) == IF x < 0 THEN -((-x + 5) \div 10) ELSE (x + 5) \div 10
Out(op, s, upd) == st' = s /\ obs' = [op |-> op, r |-> [out |-> Grid(s.out), upd |-> upd, k |-> <<s.kp, s.ki, s.kd>>,
                                              err |-> IF ~s.wrap THEN 0 ELSE IF s.sp > s.inp THEN s.sp - s.inp ELSE s.inp - s.sp, sp |-> IF s.wrap THEN s.sp ELSE 0]]
Clamp(x, lo, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
Cap(t) == IF t > CapT THEN CapT ELSE t

\* a new controller counts as last updated 100 ms ago
New(op) == Out(op, [live |-> TRUE, wrap |-> op.wrap, kp |-> op.k.p, ki |-> op.k.i, kd |-> op.k.d, onerr |-> op.onerr, rev |-> op.rev,
                    T |-> IF op.wrap THEN op.T ELSE 100, lo |-> op.lim.lo * 1000, hi |-> op.lim.hi * 1000,
                    I |-> Clamp(0, op.lim.lo * 1000, op.lim.hi * 1000), last |-> 0,
                    out |-> Clamp(0, op.lim.lo * 1000, op.lim.hi * 1000), inp |-> 0, sp |-> 0, el |-> Cap(100)], FALSE)
Adv(op) == Out(op, [st EXCEPT !.el = Cap(@ + op.d)], FALSE)
Set(op) == Out(op, [st EXCEPT !.sp = op.v], FALSE)
Sign == IF st.rev THEN -1 ELSE 1
Law(in) == LET e == st.sp - in
               d == in - st.last
               I == Clamp(st.I + Sign * st.ki * e * st.T - (IF st.onerr THEN 0 ELSE Sign * st.kp * d * 1000), st.lo, st.hi)
               o == Clamp((IF st.onerr THEN Sign * st.kp * e * 1000 ELSE 0) + I - Sign * st.kd * d * (1000000 \div st.T), st.lo, st.hi) IN
           [st EXCEPT !.I = I, !.out = o, !.last = in, !.inp = in]
\* ahead: the reading's moment relative to the clock
Read(op) == IF st.el + op.ahead >= st.T THEN Out(op, [Law(op.v) EXCEPT !.el = -op.ahead], ~st.wrap) ELSE Out(op, [st EXCEPT !.inp = op.v], FALSE)
Tune(op) == Out(op, [st EXCEPT !.kp = op.k.p, !.ki = op.k.i, !.kd = op.k.d, !.onerr = op.onerr], FALSE)
Lim(op) == IF op.lim.lo >= op.lim.hi THEN Out(op, st, FALSE)
           ELSE Out(op, [st EXCEPT !.lo = op.lim.lo * 1000, !.hi = op.lim.hi * 1000, !.out = Clamp(@, op.lim.lo * 1000, op.lim.hi * 1000), !.I = Clamp(@, op.lim.lo * 1000, op.lim.hi * 1000)], FALSE)
Time(op) == Out(op, IF op.T > 0 THEN [st EXCEPT !.T = op.T] ELSE st, FALSE)
Dir(op) == Out(op, [st EXCEPT !.rev = op.rev], FALSE)
\* start over from an output set by hand, and the latest reading
Again(op) == Out(op, [st EXCEPT !.I = Clamp(op.out * 1000, st.lo, st.hi), !.out = op.out * 1000, !.last = st.inp], FALSE)

\* tunings compare equal exactly when all three are
Same(op) == Out(op, st, op.k = [p |-> st.kp, i |-> st.ki, d |-> st.kd])

\* tunings that are not given at all are 20, 0.3 and 0.1, here in tenths
Bare(op) == st' = st /\ obs' = [op |-> op, r |-> [k |-> <<200, 3, 1>>]]

Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "adv" -> st.live /\ Adv(op)
              [] op.op = "sp" -> st.live /\ Set(op)
              [] op.op = "read" -> st.live /\ Read(op)
              [] op.op = "tune" -> st.live /\ Tune(op)
              [] op.op = "bare" -> Bare(op)
              [] op.op = "same" -> st.live /\ st.wrap /\ Same(op)
              [] op.op = "limits" -> st.live /\ ~st.wrap /\ Lim(op)
              [] op.op = "time" -> st.live /\ ~st.wrap /\ Time(op)
              [] op.op = "dir" -> st.live /\ ~st.wrap /\ Dir(op)
              [] op.op = "again" -> st.live /\ ~st.wrap /\ Again(op)
MCOps == IF ~st.live THEN {[op |-> "new", wrap |-> w, k |-> k, onerr |-> p, rev |-> r, T |-> t, lim |-> l] : w \in Wraps, k \in Tunes, p \in Props, r \in Dirs, t \in Ts, l \in {m \in Limits : m.lo < m.hi}} ELSE
         {[op |-> "adv", d |-> d] : d \in Advs} \union {[op |-> "sp", v |-> v] : v \in Sps}
         \union {[op |-> "read", v |-> v, ahead |-> 0] : v \in Ins}
         \union {[op |-> "tune", k |-> k, onerr |-> p] : k \in Tunes, p \in Props}
         \union (IF st.wrap THEN {[op |-> "same", k |-> k] : k \in Tunes} \union {[op |-> "bare"]} ELSE {[op |-> "limits", lim |-> l] : l \in Limits} \union {[op |-> "time", T |-> t] : t \in Ts \union {0}}
                 \union {[op |-> "dir", rev |-> r] : r \in Dirs} \union {[op |-> "again", out |-> o] : o \in Outs})
--------------------------------------------------------------------------------
TypeOK == st.live => st.lo < st.hi
Bounded == (st.live /\ obs.op.op \notin {"again", "bare"} /\ (st.wrap \/ (obs.op.op = "read" /\ obs.r.upd))) => (st.out \in st.lo .. st.hi /\ st.I \in st.lo .. st.hi)
Sampled == [][ (obs'.op.op = "read" /\ st'.I # st.I) => st.el + obs'.op.ahead >= st.T ]_vars
Untouched == [][ obs'.op.op \in {"adv", "sp", "tune", "time", "dir"} => st'.out = st.out /\ st'.I = st.I ]_vars
================================================================================
