---------------------------------- MODULE Future ----------------------------------
(* spn::eventsystem::Future on its own: two of them and a pipeline that is used        *)
(* directly. d: the delay a future was last given; rem: its due moment less the        *)
(* present; pipe: the futures that wait in the pipeline, in order of their due moments.*)
EXTENDS Integers, Sequences, TLC
CONSTANTS Bases, Units, Delays, Advs, Far
VARIABLES st, obs
vars == <<st, obs>>

Two == 1..2
Init == st = [live |-> FALSE, d |-> <<0, 0>>, rem |-> <<0, 0>>, pipe |-> <<>>] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Next(s) == IF s.pipe = <<>> THEN 0 ELSE IF s.rem[s.pipe[1]] < 0 THEN 0 ELSE s.rem[s.pipe[1]]
Out(op, s, res) == st' = s /\ obs' = [op |-> op, r |-> [res |-> res, left |-> s.rem, due |-> s.rem, expired |-> [k \in Two |-> IF s.rem[k] <= 0 THEN 1 ELSE 0],
    first |-> s.rem[1] < s.rem[2], second |-> s.rem[2] < s.rem[1], same |-> s.rem[1] = s.rem[2],
    any |-> s.pipe # <<>>, ready |-> IF s.pipe = <<>> THEN FALSE ELSE s.rem[s.pipe[1]] <= 0, next |-> Next(s), wait |-> Len(s.pipe)]]
New(op) == Out(op, [live |-> TRUE, d |-> op.d, rem |-> op.d, pipe |-> <<>>], 0)
Waits(k) == \E i \in DOMAIN st.pipe : st.pipe[i] = k
\* anew from the present: with another delay, or (0) the last one
Again(s, k, d) == LET e == IF d = 0 THEN s.d[k] ELSE d IN [s EXCEPT !.d[k] = e, !.rem[k] = e]
Resched(op) == Out(op, Again(st, op.k, op.d), 0)
Push(op) == LET s == Again(st, op.k, 0) IN
            Out(op, [s EXCEPT !.pipe = IF st.pipe = <<>> THEN <<op.k>> ELSE IF s.rem[op.k] < s.rem[st.pipe[1]] THEN <<op.k>> \o @ ELSE Append(@, op.k)], 0)
Expire(op) == Out(op, [st EXCEPT !.pipe = Tail(@)], Head(st.pipe))
Adv(op) == Out(op, [st EXCEPT !.rem = [k \in Two |-> @[k] - op.d]], 0)
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "adv" -> st.live /\ Adv(op)
              [] op.op = "resched" -> st.live /\ ~Waits(op.k) /\ (op.d > 0 \/ st.d[op.k] > 0) /\ Resched(op)
              [] op.op = "push" -> st.live /\ ~Waits(op.k) /\ st.d[op.k] > 0 /\ Push(op)
              [] op.op = "expire" -> st.live /\ (IF st.pipe = <<>> THEN FALSE ELSE st.rem[st.pipe[1]] <= 0) /\ Expire(op)
MCOps == IF ~st.live THEN {[op |-> "new", d |-> <<a, b>>, base |-> x, unit |-> u] : a \in Delays, b \in Delays, x \in Bases, u \in Units}
         ELSE {[op |-> "adv", d |-> d] : d \in {e \in Advs : \A k \in Two : st.rem[k] - e >= -Far}}
              \union {[op |-> "resched", k |-> k, d |-> d] : k \in Two, d \in Delays \union {0}} \union {[op |-> "push", k |-> k] : k \in Two} \union {[op |-> "expire"]}
--------------------------------------------------------------------------------
TypeOK == Len(st.pipe) <= 2
Sorted == \A i, j \in DOMAIN st.pipe : i < j => st.rem[st.pipe[i]] <= st.rem[st.pipe[j]]
================================================================================
