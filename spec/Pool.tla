---------------------------------- MODULE Pool ----------------------------------
(* spn::structure::Pool: reference-counted objects 1..n; st.pool is the population *)
(* in order, st.out[v] the number of holders of v outside the pool.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Sizes, MaxHold, Big
VARIABLES st, obs
vars == <<st, obs>>

Range(s) == {s[i] : i \in DOMAIN s}
Init == /\ st = [live |-> FALSE, cap |-> 0, pool |-> <<>>, out |-> <<>>]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Alive(s) == {v \in DOMAIN s.out : v \in Range(s.pool) \/ s.out[v] > 0}
Proj(s) == [size |-> Len(s.pool), full |-> s.live /\ Len(s.pool) = s.cap,
            alive |-> [v \in DOMAIN s.out |-> v \in Alive(s)],
            refs |-> [v \in DOMAIN s.out |-> s.out[v] + (IF v \in Range(s.pool) THEN 1 ELSE 0)]]
Out(op, s, res) == st' = s /\ obs' = [op |-> op, r |-> [res |-> res] @@ Proj(s)]

New(op) == Out(op, [live |-> TRUE, cap |-> op.n, pool |-> [i \in 1 .. op.n |-> i], out |-> [i \in 1 .. op.n |-> 0]], 0)
Free == {v \in Range(st.pool) : st.out[v] = 0}
\* any free object; nothing exactly when there is none
Acquire(op) == IF Free = {} THEN Out(op, st, 0) ELSE \E v \in Free : Out(op, [st EXCEPT !.out[v] = 1], v)
Copy(op) == Out(op, [st EXCEPT !.out[op.v] = @ + 1], 0)
Release(op) == Out(op, [st EXCEPT !.out[op.v] = @ - 1], 0)
Depop(op) == LET v == Head(st.pool) IN
             Out(op, [st EXCEPT !.pool = Tail(st.pool), !.out[v] = IF op.keep THEN @ + 1 ELSE @], v)
Populate(op) == Out(op, [st EXCEPT !.pool = Append(st.pool, op.v)], 0)   \* by one of its holders
Move(op) == Out(op, st, 0)                                               \* to another pool object
Destroy(op) == Out(op, [st EXCEPT !.live = FALSE, !.pool = <<>>], 0)
\* op.n objects: all are handed out once, then none; each released one is found again
Sweep(op) == st' = st /\ obs' = [op |-> op, r |-> [res |-> [got |-> op.n, none |-> TRUE, again |-> TRUE]]]

Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "acquire" -> st.live /\ Len(st.pool) = st.cap /\ Acquire(op)
              [] op.op = "copy" -> op.v \in DOMAIN st.out /\ st.out[op.v] > 0 /\ Copy(op)
              [] op.op = "release" -> op.v \in DOMAIN st.out /\ st.out[op.v] > 0 /\ Release(op)
              [] op.op = "depop" -> st.live /\ st.pool # <<>> /\ Depop(op)
              [] op.op = "populate" -> st.live /\ Len(st.pool) < st.cap /\ st.out[op.v] > 0 /\ op.v \notin Range(st.pool) /\ Populate(op)
              [] op.op \in {"move", "self"} -> st.live /\ Move(op)
              [] op.op = "destroy" -> st.live /\ Destroy(op)
              [] op.op = "sweep" -> Sweep(op)

MCOps == (IF ~st.live /\ \A v \in DOMAIN st.out : st.out[v] = 0
          THEN {[op |-> "new", n |-> n, by |-> b] : n \in Sizes, b \in {"shared", "raw", "value"}} ELSE {})
         \union (IF ~st.live THEN {[op |-> "sweep", n |-> n] : n \in Big} ELSE
                 (IF Len(st.pool) = st.cap THEN {[op |-> "acquire"]} ELSE {})
                 \union {[op |-> o] : o \in {"move", "self", "destroy"}}
                 \union {[op |-> "depop", keep |-> k] : k \in IF st.pool = <<>> THEN {} ELSE IF st.out[Head(st.pool)] < MaxHold THEN BOOLEAN ELSE {FALSE}}
                 \union {[op |-> "populate", v |-> v] : v \in {w \in DOMAIN st.out : Len(st.pool) < st.cap /\ st.out[w] > 0 /\ w \notin Range(st.pool)}})
         \union {[op |-> "copy", v |-> v] : v \in {w \in DOMAIN st.out : st.out[w] \in 1 .. MaxHold - 1}}
         \union {[op |-> "release", v |-> v] : v \in {w \in DOMAIN st.out : st.out[w] > 0}}
--------------------------------------------------------------------------------
TypeOK == Len(st.pool) <= st.cap /\ Cardinality(Range(st.pool)) = Len(st.pool)
LentOnce == [][ (obs'.op.op = "acquire" /\ obs'.r.res # 0) => st.out[obs'.r.res] = 0 /\ obs'.r.res \in Range(st.pool) ]_vars
NoneOnlyWhenAllLent == [][ (obs'.op.op = "acquire" /\ obs'.r.res = 0) => \A v \in Range(st.pool) : st.out[v] > 0 ]_vars
SetConstant == [][ obs'.op.op \in {"acquire", "copy", "release", "move", "self"} => st'.pool = st.pool ]_vars
HeldSurvive == [][ obs'.op.op = "destroy" => Alive(st') = {v \in DOMAIN st.out : st.out[v] > 0} ]_vars
================================================================================
