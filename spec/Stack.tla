---------------------------------- MODULE Stack ----------------------------------
(* spn::structure::Stack: last in, first out. Elements name objects; st.held counts   *)
(* the caller's references to each. A plain stack holds numbers (no objects counted). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Caps, Vals, Kinds, MaxHeld, Dbg
VARIABLES st, obs
vars == <<st, obs>>

Occ(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
Init == /\ st = [live |-> FALSE, own |-> FALSE, cap |-> 0, q |-> <<>>, held |-> <<>>]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Counts(s) == [v \in DOMAIN s.held |-> Occ(s.q, v) + s.held[v]]
Refused(op) == op.op = "push" /\ Len(st.q) = st.cap
Out(op, s) == st' = s /\ obs' = [op |-> op, r |-> [size |-> Len(s.q), empty |-> s.q = <<>>, top |-> IF s.q = <<>> THEN -1 ELSE s.q[Len(s.q)], cnt |-> Counts(s)]
                                                  @@ (IF Dbg THEN [asserted |-> Refused(op)] ELSE <<>>)]

New(op) == Out(op, [live |-> TRUE, own |-> op.kind = "own", cap |-> op.cap, q |-> <<>>, held |-> [i \in 1 .. (IF op.kind = "own" THEN op.ids ELSE 0) |-> 0]])
\* the element given stays the caller's, unless it is let go; there is no room in a full stack
Push(op) == Out(op, LET s == IF Len(st.q) < st.cap THEN [st EXCEPT !.q = Append(@, op.v)] ELSE st IN
                    IF op.keep THEN [s EXCEPT !.held[op.v] = @ + 1] ELSE s)
Pop(op) == Out(op, [st EXCEPT !.q = SubSeq(@, 1, Len(@) - 1)])
\* what is on top can be changed in place
Put(op) == Out(op, [st EXCEPT !.q[Len(st.q)] = op.v])
Take(op) == Out(op, [st EXCEPT !.held[st.q[Len(st.q)]] = @ + 1])
Release(op) == Out(op, [st EXCEPT !.held[op.v] = @ - 1])

Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "push" -> st.live /\ Push(op)
              [] op.op = "pop" -> st.live /\ st.q # <<>> /\ Pop(op)
              [] op.op = "put" -> st.live /\ st.q # <<>> /\ Put(op)
              [] op.op = "take" -> st.live /\ st.own /\ st.q # <<>> /\ Take(op)
              [] op.op = "release" -> st.live /\ st.own /\ st.held[op.v] > 0 /\ Release(op)
Keeps(v) == IF st.own /\ st.held[v] < MaxHeld THEN BOOLEAN ELSE {FALSE}
MCOps == IF ~st.live THEN {[op |-> "new", kind |-> k, cap |-> c, ids |-> Cardinality(Vals)] : k \in Kinds, c \in Caps}
         ELSE UNION {{[op |-> "push", v |-> v, how |-> h, keep |-> k] : k \in Keeps(v), h \in {"push", "emplace"}} : v \in Vals}
              \union (IF st.q = <<>> THEN {} ELSE {[op |-> "pop"]} \union {[op |-> "put", v |-> v] : v \in Vals}
                                                  \union (IF st.own /\ st.held[st.q[Len(st.q)]] < MaxHeld THEN {[op |-> "take"]} ELSE {}))
              \union {[op |-> "release", v |-> v] : v \in {w \in DOMAIN st.held : st.held[w] > 0}}
--------------------------------------------------------------------------------
TypeOK == Len(st.q) <= st.cap
\* everything below the top is as it was, whatever is done
Below(s) == SubSeq(s, 1, Len(s) - 1)
LastInFirstOut == [][ obs'.op.op # "new" => CASE Len(st'.q) > Len(st.q) -> Below(st'.q) = st.q /\ obs'.r.top = obs'.op.v
                                              [] Len(st'.q) < Len(st.q) -> st'.q = Below(st.q)
                                              [] OTHER -> st.q = <<>> \/ Below(st'.q) = Below(st.q) ]_vars
Alive == \A v \in DOMAIN st.held : Counts(st)[v] = 0 => Occ(st.q, v) = 0
================================================================================
