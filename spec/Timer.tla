---------------------------------- MODULE Timer ----------------------------------
(* spn::structure::time timers. Everything is relative to the present, so that no    *)
(* answer may depend on the uptime. el: time since the mark (stopwatch, interval);   *)
(* rem: due moment minus the present (alarm). All times are multiples of a unit       *)
(* chosen with the timer, from 1 ms to beyond 2^32 ms.                               *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bases, Advs, Ivs, Offs, Far, Units
VARIABLES st, obs
vars == <<st, obs>>

Init == st = [kind |-> "none", el |-> 0, iv |-> 0, catch |-> FALSE] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Proj(s) == CASE s.kind = "watch" -> [el |-> s.el]
             [] s.kind = "alarm" -> [due |-> s.iv, left |-> s.iv]
             [] s.kind = "interval" -> [due |-> s.iv - s.el, left |-> s.iv - s.el, iv |-> s.iv]
Out(op, s, res) == st' = s /\ obs' = [op |-> op, r |-> [res |-> res] @@ Proj(s)]

\* off: the stopwatch's start relative to the present; iv: the alarm's remaining time, the interval
New(op) == Out(op, [kind |-> op.kind, el |-> -op.off, iv |-> op.iv, catch |-> op.catch], 0)
Adv(op) == Out(op, IF st.kind = "alarm" THEN [st EXCEPT !.iv = @ - op.d] ELSE [st EXCEPT !.el = @ + op.d], 0)
Read(op) == Out(op, IF op.reset THEN [st EXCEPT !.el = 0] ELSE st, st.el)
Reset(op) == Out(op, [st EXCEPT !.el = -op.off], 0)
Expired == IF st.kind = "alarm" THEN st.iv <= 0 ELSE st.el > st.iv
Check(op) == Out(op, IF st.kind = "alarm" \/ ~Expired THEN st
                     ELSE [st EXCEPT !.el = IF st.catch THEN @ - st.iv ELSE 0], IF Expired THEN 1 ELSE 0)
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "adv" -> st.kind # "none" /\ Adv(op)
              [] op.op = "read" -> st.kind = "watch" /\ Read(op)
              [] op.op = "reset" -> st.kind \in {"watch", "interval"} /\ Reset(op)
              [] op.op = "check" -> st.kind \in {"alarm", "interval"} /\ Check(op)

MCOps == (IF st.kind = "none" THEN {[op |-> "new", kind |-> k, iv |-> i, off |-> o, catch |-> c, abs |-> a, base |-> b, unit |-> u] :
                                    k \in {"watch"}, i \in {0}, o \in Offs, c \in {FALSE}, a \in BOOLEAN, b \in Bases, u \in Units}
                            \union {[op |-> "new", kind |-> "interval", iv |-> i, off |-> 0, catch |-> c, abs |-> FALSE, base |-> b, unit |-> u] : i \in Ivs, c \in BOOLEAN, b \in Bases, u \in Units}
                            \union {[op |-> "new", kind |-> "alarm", iv |-> i, off |-> 0, catch |-> FALSE, abs |-> a, base |-> b, unit |-> u] : i \in Ivs, a \in BOOLEAN, b \in Bases, u \in Units}
          ELSE {[op |-> "adv", d |-> d] : d \in {e \in Advs : IF st.kind = "alarm" THEN st.iv - e >= -Far ELSE st.el + e <= Far}})
         \union (IF st.kind = "watch" THEN {[op |-> "read", reset |-> b] : b \in BOOLEAN} ELSE {})
         \union (IF st.kind = "watch" THEN {[op |-> "reset", off |-> o] : o \in Offs} ELSE {})
         \union (IF st.kind = "interval" THEN {[op |-> "reset", off |-> 0]} ELSE {})
         \union (IF st.kind \in {"alarm", "interval"} THEN {[op |-> "check"]} ELSE {})
--------------------------------------------------------------------------------
TypeOK == st.iv \in Int /\ st.el \in Int
\* at most one expiry per check, and with catch-up no elapsed interval is lost or counted twice
NoLoss == [][ (obs'.op.op = "check" /\ st.kind = "interval" /\ st.catch) => st.el - st'.el = obs'.r.res * st.iv ]_vars
Strict == [][ (obs'.op.op = "check" /\ st.kind = "interval") => (obs'.r.res = 1 <=> st.el > st.iv) ]_vars
Sticky == [][ (obs'.op.op = "check" /\ st.kind = "alarm") => (obs'.r.res = 1 <=> obs'.r.left <= 0) ]_vars
================================================================================
