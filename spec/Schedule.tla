---------------------------------- MODULE Schedule ----------------------------------
(* spn::structure::time::Schedule: blocks in list order, start and length in seconds. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Starts, Durs, Vs, MaxBlocks, Queries
VARIABLES st, obs
vars == <<st, obs>>

Day == 86400
Init == st = [b |-> <<>>, on |-> FALSE] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, s, res) == st' = s /\ obs' = [op |-> op, r |-> [res |-> res]]

\* block b covers second t: from its start, before start plus length, wrapping past midnight
Covers(b, t) == (t - b.s) % Day < b.d
Value(t) == LET I == {i \in DOMAIN st.b : Covers(st.b[i], t)} IN
            IF I = {} THEN 0 ELSE st.b[CHOOSE i \in I : \A j \in I : i <= j].v
NextAt(t) == LET S == {st.b[i].s : i \in DOMAIN st.b} \cap (t + 1 .. Day) IN
           IF S = {} THEN Day ELSE CHOOSE s \in S : \A z \in S : s <= z
\* every second of the day, as the list of <<second, answer>> where the answer changes
Edges == {0} \union {st.b[i].s : i \in DOMAIN st.b} \union {(st.b[i].s + st.b[i].d) % Day : i \in DOMAIN st.b}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
ValueRuns == LET E == Sorted({t \in Edges : t = 0 \/ Value(t) # Value(t - 1)}) IN [i \in DOMAIN E |-> <<E[i], Value(E[i])>>]
NextRuns == LET E == Sorted({t \in Edges : t = 0 \/ NextAt(t) # NextAt(t - 1)}) IN [i \in DOMAIN E |-> <<E[i], NextAt(E[i])>>]

New(op) == Out(op, [b |-> op.blocks, on |-> TRUE], 0)
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "at" -> st.on /\ Out(op, st, Value(op.t))
              [] op.op = "next" -> st.on /\ Out(op, st, NextAt(op.t))
              [] op.op = "day" -> st.on /\ Out(op, st, ValueRuns)
              [] op.op = "starts" -> st.on /\ Out(op, st, NextRuns)

Block == [s : Starts, d : Durs, v : Vs]
RECURSIVE Sum(_)
Sum(b) == IF b = <<>> THEN 0 ELSE Head(b).d + Sum(Tail(b))
Lists == UNION {[1 .. n -> Block] : n \in 0 .. MaxBlocks}
MCOps == IF st.on THEN {[op |-> o, t |-> t] : o \in {"at", "next"}, t \in Queries} \union {[op |-> o] : o \in {"day", "starts"}}
         ELSE {[op |-> "new", blocks |-> b] : b \in {l \in Lists : Sum(l) <= Day}}
--------------------------------------------------------------------------------
TypeOK == \A i \in DOMAIN st.b : st.b[i].s \in 0 .. Day - 1 /\ st.b[i].d \in 1 .. Day
\* the list of changes answers for every second of a sample of the day
RunsAgree == st.on => \A t \in Queries : LET I == {i \in DOMAIN ValueRuns : ValueRuns[i][1] <= t} IN ValueRuns[Cardinality(I)][2] = Value(t)
NextIsAStart == st.on => \A t \in Queries : NextAt(t) > t
================================================================================
