---------------------------------- MODULE Event ----------------------------------
(* spn::core::EventSystem with its pipeline, store and handlers.                     *)
(* st.pipe: waiting events in order of delivery, rem = due time minus the present;   *)
(* k # 0: the caller also holds that event, in slot k. st.held: events the caller    *)
(* holds. st.scr[h]: what handler h does (once) at its next call. Times are relative *)
(* to the present, so nothing depends on the uptime; they are multiples of a unit    *)
(* chosen with the system, from 1 ms to beyond 2^32 ms.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Caps, NIds, HSets, Delays, Advs, Scripts, ScriptHs, Vals, NSlots, Bases, Units, Ticks, Late, Kinds, Mode, Kept, Spare,
          Dbg      \* a debug build, which reports every refused request by an assertion
VARIABLES st, obs
vars == <<st, obs>>

None == [id |-> 0, v |-> 0, d |-> 0]
Dead == [live |-> FALSE, cap |-> 0, hs |-> <<>>, scr |-> <<>>, pipe |-> <<>>, held |-> <<>>, on |-> FALSE, min |-> 0, max |-> 0, u |-> 0, hcap |-> 0]
Init == st = Dead /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]

Slots(s) == DOMAIN s.held
Held(s) == {k \in Slots(s) : s.held[k] # None}
\* inf: events being delivered that still occupy their place
Used(s) == Cardinality({i \in DOMAIN s.pipe : s.pipe[i].k = 0}) + Cardinality(Held(s)) + s.inf
Waiting(s, k) == \E i \in DOMAIN s.pipe : s.pipe[i].k = k

\* a step in progress: the state plus elapsed time, log of calls, occupied in flight, slots being delivered
Begin(s) == [over |-> FALSE, t |-> 0, log |-> <<>>, inf |-> 0, busy |-> {}] @@ s   \* busy: slots of events being delivered
End(x) == [f \in DOMAIN Dead |-> x[f]]
Lapse(x, d) == [x EXCEPT !.t = @ + d, !.pipe = [i \in DOMAIN x.pipe |-> [x.pipe[i] EXCEPT !.rem = @ - d]]]
\* in order of due time, after the ones due at the same time
Put(x, e) == LET i == Cardinality({j \in DOMAIN x.pipe : x.pipe[j].rem <= e.rem}) IN
             [x EXCEPT !.pipe = SubSeq(x.pipe, 1, i) \o <<e>> \o SubSeq(x.pipe, i + 1, Len(x.pipe))]
SchedId(x, id, d, v) == IF Used(x) < x.cap THEN Put(x, [id |-> id, v |-> v, rem |-> d, k |-> 0]) ELSE [x EXCEPT !.over = TRUE]
MakeEv(x, k, id, d, v) == IF Used(x) < x.cap THEN [x EXCEPT !.held[k] = [id |-> id, v |-> v, d |-> d]] ELSE [x EXCEPT !.over = TRUE]
DropEv(x, k) == [x EXCEPT !.held[k] = None, !.pipe = [i \in DOMAIN x.pipe |-> IF x.pipe[i].k = k THEN [x.pipe[i] EXCEPT !.k = 0] ELSE x.pipe[i]]]

RECURSIVE RunHs(_, _, _, _)
RECURSIVE RunActs(_, _)
RECURSIVE Act(_, _)
\* an event delivered by id or by the loop may or may not occupy its place while its handlers run
Deliver(x, id, v, inf) == {[y EXCEPT !.inf = x.inf, !.busy = x.busy] : y \in UNION {RunHs([x EXCEPT !.inf = @ + i], x.hs[id], id, v) : i \in inf}}
TrigId(x, id, v) == IF Used(x) < x.cap THEN Deliver(x, id, v, {0, 1}) ELSE {[x EXCEPT !.over = TRUE]}
Act(x, a) == CASE a.a = "sched" -> {SchedId(x, a.id, a.d, a.v)}
               [] a.a = "delay" -> {Lapse(x, a.d)}
               [] a.a = "trig"  -> TrigId(x, a.id, a.v)
               [] a.a = "make"  -> {IF x.held[a.k] = None THEN MakeEv(x, a.k, a.id, a.d, a.v) ELSE x}
               [] a.a = "drop"  -> {IF x.held[a.k] # None /\ a.k \notin x.busy THEN DropEv(x, a.k) ELSE x}
RunActs(x, as) == IF as = <<>> THEN {x} ELSE UNION {RunActs(y, Tail(as)) : y \in Act(x, Head(as))}
RunHs(x, hs, id, v) == IF hs = <<>> THEN {x} ELSE
    LET h == Head(hs) IN
    UNION {RunHs(y, Tail(hs), id, v) : y \in RunActs([x EXCEPT !.log = Append(@, [h |-> h, id |-> id, v |-> v, t |-> x.t]), !.scr[h] = <<>>], x.scr[h])}

RECURSIVE RunDue(_)
RunDue(x) == IF x.pipe = <<>> \/ Head(x.pipe).rem > 0 THEN {x} ELSE
    LET e == Head(x.pipe) IN
    UNION {RunDue(y) : y \in Deliver([x EXCEPT !.pipe = Tail(@)], e.id, e.v, IF e.k = 0 THEN {0, 1} ELSE {0})}
Min(a, b) == IF a < b THEN a ELSE b
Sleep(x) == IF ~x.on THEN x ELSE Lapse(x, IF x.pipe = <<>> THEN x.min ELSE Min(Head(x.pipe).rem, x.max))

Next(s) == IF s.pipe = <<>> \/ Head(s.pipe).rem < 0 THEN 0 ELSE Head(s.pipe).rem
Proj(x, s) ==
    CASE Mode = "time" -> [dt |-> x.t, log_t |-> [i \in DOMAIN x.log |-> <<x.log[i].h, x.log[i].id, x.log[i].t>>], next |-> Next(s), wait |-> Len(s.pipe)]
      [] Mode = "data" -> [log_v |-> [i \in DOMAIN x.log |-> <<x.log[i].h, x.log[i].id, x.log[i].v>>],
                           wait |-> Len(s.pipe), held |-> [k \in Slots(s) |-> <<s.held[k].id, s.held[k].v>>]]
      [] Mode = "cap" -> [ids |-> [i \in DOMAIN x.log |-> x.log[i].id], wait |-> Len(s.pipe), held |-> [k \in Slots(s) |-> <<s.held[k].id, s.held[k].v>>],
                          alive |-> IF s.live THEN 0 ELSE Cardinality(Held(s))]
      [] Mode = "sleep" -> [dt |-> x.t, next |-> Next(s), wait |-> Len(s.pipe)]
Out(op, x, res) == LET s == End(x) IN st' = s /\ obs' = [op |-> op, r |-> [res |-> res] @@ Proj(x, s) @@ (IF Dbg THEN [asserted |-> x.over] ELSE <<>>)]
Outs(op, xs, res) == \E x \in xs : Out(op, x, res)
X == Begin(st)

Longest(hs) == IF hs = <<>> THEN 0 ELSE Len(hs[CHOOSE i \in DOMAIN hs : \A j \in DOMAIN hs : Len(hs[j]) <= Len(hs[i])])
New(op) == Out(op, Begin([hcap |-> Longest(op.hs) + op.spare, live |-> TRUE, cap |-> op.cap, hs |-> op.hs, scr |-> [h \in 1 .. op.nh |-> <<>>], pipe |-> <<>>,
                          held |-> [k \in 1 .. op.slots |-> None], on |-> op.on, min |-> op.min, max |-> op.max, u |-> op.unit]), 0)
Ok(x) == IF Used(x) < x.cap THEN 1 ELSE 0
Sched(op) == Out(op, SchedId(X, op.id, op.d, op.v), 0)
Make(op) == Out(op, MakeEv(X, op.k, op.id, op.d, op.v), Ok(X))
Drop(op) == Out(op, DropEv(X, op.k), 0)
\* one more handler for an id, after those it has
Attach(op) == Out(op, [X EXCEPT !.hs[op.id] = Append(@, op.h)], 0)
\* another delay (the last one, if 0) for an event that does not wait
Resched(op) == Out(op, [X EXCEPT !.held[op.k].d = IF op.d = 0 THEN @ ELSE op.d], 0)
SchedHeld(op) == LET e == st.held[op.k]
                     x == Put(X, [id |-> e.id, v |-> e.v, rem |-> e.d, k |-> op.k]) IN
                 Out(op, IF op.keep THEN x ELSE DropEv(x, op.k), 0)
TrigHeld(op) == LET e == st.held[op.k] IN Outs(op, Deliver([X EXCEPT !.busy = {op.k}], e.id, e.v, {0}), 0)
Trig(op) == Outs(op, TrigId(X, op.id, op.v), 0)
Script(op) == Out(op, [X EXCEPT !.scr[op.h] = op.acts], 0)
Adv(op) == Out(op, Lapse(X, op.d), 0)
Loop(op) == Outs(op, {Sleep(y) : y \in RunDue([X EXCEPT !.busy = {k \in Slots(st) : Waiting(st, k)}])}, 0)
\* how many events can be made at once now: as many as it takes to be refused
Probe(op) == Out(op, [X EXCEPT !.over = TRUE], st.cap - Used(X))
\* the pipeline as text: the time until each event, rounded to a unit that suits it
Half(n, d) == (n \div d) + (IF 2 * (n % d) >= d THEN 1 ELSE 0)
TimeText(n) == CASE n = 0 -> "0us"
                 [] n > 0 /\ n < 1000 -> ToString(n) \o "ms"
                 [] n >= 1000 /\ Half(n, 1000) < 900 -> ToString(Half(n, 1000)) \o "s"
                 [] Half(n, 1000) >= 900 /\ Half(n, 60000) < 1440 -> ToString(Half(n, 60000)) \o "m"
                 [] OTHER -> ToString(Half(n, 86400000)) \o "d"
RECURSIVE PipeText(_)
PipeText(p) == IF p = <<>> THEN "" ELSE TimeText(p[1].rem) \o (IF Len(p) > 1 THEN ", " ELSE "") \o PipeText(Tail(p))
Text(op) == st' = st /\ obs' = [op |-> op, r |-> [text |-> "Pipeline: [" \o PipeText(st.pipe) \o "]"] @@ Proj(X, st)]
Destroy(op) == Out(op, Begin([st EXCEPT !.live = FALSE, !.pipe = <<>>]), 0)

Dom(op) == op.id \in DOMAIN st.hs /\ st.hs[op.id] # <<>>
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "sched" -> st.live /\ Dom(op) /\ Sched(op)
              [] op.op = "make" -> st.live /\ Dom(op) /\ st.held[op.k] = None /\ Make(op)
              [] op.op = "drop" -> op.k \in Held(st) /\ Drop(op)
              [] op.op = "attach" -> st.live /\ op.id \in DOMAIN st.hs /\ op.h \in DOMAIN st.scr /\ Len(st.hs[op.id]) < st.hcap /\ Attach(op)
              [] op.op = "resched" -> st.live /\ op.k \in Held(st) /\ ~Waiting(st, op.k) /\ (op.d > 0 \/ st.held[op.k].d > 0) /\ Resched(op)
              [] op.op = "schedh" -> st.live /\ op.k \in Held(st) /\ ~Waiting(st, op.k) /\ SchedHeld(op)
              [] op.op = "trigh" -> st.live /\ op.k \in Held(st) /\ TrigHeld(op)
              [] op.op = "trig" -> st.live /\ Dom(op) /\ Trig(op)
              [] op.op = "script" -> st.live /\ st.scr[op.h] = <<>> /\ Script(op)
              [] op.op = "adv" -> st.live /\ Adv(op)
              [] op.op = "loop" -> st.live /\ Loop(op)
              [] op.op = "text" -> st.live /\ st.u = 0 /\ (IF st.pipe = <<>> THEN TRUE ELSE Head(st.pipe).rem >= 0) /\ Text(op)
              [] op.op = "probe" -> st.live /\ Probe(op)
              [] op.op = "destroy" -> st.live /\ Destroy(op)

FreeSlots == {k \in Slots(st) : st.held[k] = None}
MCIds == 1 .. NIds
Punctual == st.pipe = <<>> \/ Head(st.pipe).rem >= 0      \* bounds how late handlers can make things
MCOps == IF ~st.live THEN (IF Held(st) = {} THEN {[op |-> "new", cap |-> c, hs |-> h, nh |-> 4, slots |-> NSlots, on |-> k[1], min |-> k[2], max |-> k[3], base |-> b, unit |-> u, kinds |-> Kinds, spare |-> Spare] :
                                                  c \in Caps, h \in HSets, b \in Bases, u \in Units, k \in Ticks}
                            ELSE {[op |-> "drop", k |-> k] : k \in Held(st)}) ELSE
         {[op |-> "sched", id |-> i, d |-> d, v |-> v] : i \in MCIds, d \in Delays, v \in Vals}
         \union {[op |-> "make", k |-> k, id |-> i, d |-> d, v |-> v] : k \in FreeSlots, i \in MCIds, d \in Delays, v \in Vals}
         \union {[op |-> "drop", k |-> k] : k \in Held(st)}
         \union {[op |-> "attach", id |-> i, h |-> h] : i \in {j \in MCIds : Spare > 0 /\ Len(st.hs[j]) < st.hcap}, h \in 1..4}
         \union {[op |-> "resched", k |-> k, d |-> d] : k \in IF Spare > 0 THEN {q \in Held(st) : ~Waiting(st, q)} ELSE {}, d \in Delays}
         \union {[op |-> "schedh", k |-> k, keep |-> b] : k \in {q \in Held(st) : ~Waiting(st, q)}, b \in Kept}
         \union {[op |-> "trigh", k |-> k] : k \in IF Punctual THEN Held(st) ELSE {}}
         \union {[op |-> "trig", id |-> i, v |-> v] : i \in IF Punctual THEN MCIds ELSE {}, v \in Vals}
         \union {[op |-> "script", h |-> h, acts |-> a] : h \in {g \in ScriptHs : st.scr[g] = <<>>}, a \in Scripts}
         \union {[op |-> "adv", d |-> d] : d \in {e \in Advs : \A i \in DOMAIN st.pipe : st.pipe[i].rem - e >= -Late}}
         \union {[op |-> "loop"]}
         \union {[op |-> "text"] : z \in IF Mode = "time" /\ st.u = 0 /\ (st.pipe = <<>> \/ Head(st.pipe).rem >= 0) THEN {1} ELSE {}}
         \union (IF Mode = "cap" THEN {[op |-> "probe"], [op |-> "destroy"]} ELSE IF st.pipe = <<>> THEN {[op |-> "destroy"]} ELSE {})
--------------------------------------------------------------------------------
TypeOK == st.live => Used(X) \in 0 .. st.cap
Sorted == \A i, j \in DOMAIN st.pipe : i < j => st.pipe[i].rem <= st.pipe[j].rem
\* an event leaves the pipe only by a loop run at or after its due time, and no due event survives a run
OnlyWhenDue == [][ obs'.op.op \notin {"loop", "destroy", "new"} => Len(st'.pipe) >= Len(st.pipe) ]_vars
DueAreServed == [][ obs'.op.op = "loop" => \A i \in DOMAIN st'.pipe : st'.pipe[i].rem >= 0 /\ (~st.on => st'.pipe[i].rem > 0) ]_vars
\* sleeping never goes past the due time of a waiting event
NoOversleep == [][ obs'.op.op = "loop" /\ st.on => st'.pipe = <<>> \/ Head(st'.pipe).rem >= 0 ]_vars
\* a full system refuses without disturbing what waits
Refused == [][ (Used(X) = st.cap /\ obs'.op.op \in {"sched", "make", "trig"}) => st'.pipe = st.pipe /\ st'.held = st.held ]_vars
NothingLost == [][ obs'.op.op = "drop" /\ st.live => Used(Begin(st')) = Used(X) - (IF Waiting(st, obs'.op.k) THEN 0 ELSE 1) ]_vars
================================================================================
