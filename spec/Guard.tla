---------------------------------- MODULE Guard ----------------------------------
(* What a debug build reports as misuse. One object at a time: st.w says which kind,  *)
(* st.n its capacity (or what it holds, for results and data), st.q its elements.      *)
(* An operation outside its precondition is reported by an assertion before anything   *)
(* changes; an operation within it is not reported and takes effect.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Caps, Vals, Nums
VARIABLES st, obs
vars == <<st, obs>>

Nothing == [w |-> "none", n |-> 0, q |-> <<>>, b |-> 0]
Init == st = Nothing /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, ok, s) == /\ st' = IF ok THEN s ELSE st
                  /\ obs' = [op |-> op, r |-> [asserted |-> ~ok, q |-> IF ok THEN s.q ELSE st.q, b |-> IF ok THEN s.b ELSE st.b]]
Is(w) == st.w = w
\* a fresh object: an empty vector; a full pool of objects 1..n; a result or data of kind n; a transaction with
\* room for n more bytes; an event system with n places and two ids, of which none has a handler
New(op) == Out(op, TRUE, [w |-> op.w, n |-> op.n, b |-> 0,
                          q |-> CASE op.w = "pool" -> [i \in 1..op.n |-> i] [] op.w = "events" -> <<0, 0>> [] OTHER -> <<>>])

Len0 == Len(st.q)
Cut(s, i) == SubSeq(s, 1, i) \o SubSeq(s, i + 2, Len(s))
PutAt(s, i, v) == SubSeq(s, 1, i) \o <<v>> \o SubSeq(s, i + 1, Len(s))
Q(s) == [st EXCEPT !.q = s]
Vec(op) == LET room == Len0 < st.n
               some == Len0 > 0 IN
    CASE op.f \in {"push_back", "emplace_back"} -> Out(op, room, Q(Append(st.q, op.v)))
      [] op.f \in {"push_front", "emplace_front"} -> Out(op, room, Q(<<op.v>> \o st.q))
      [] op.f = "insert" -> Out(op, room, Q(PutAt(st.q, IF op.i > Len0 THEN Len0 ELSE op.i, op.v)))
      [] op.f = "pop_back" -> Out(op, some, Q(SubSeq(st.q, 1, Len0 - 1)))
      [] op.f = "pop_front" -> Out(op, some, Q(SubSeq(st.q, 2, Len0)))
      [] op.f \in {"peek_back", "peek_front"} -> Out(op, some, st)
      [] op.f \in {"at", "index", "const_index"} -> Out(op, op.i < Len0, st)
      [] op.f = "remove" -> Out(op, op.i < Len0, Q(Cut(st.q, op.i)))
\* st.b: objects taken from the pool and still held
Pool(op) ==
    CASE op.f = "depopulate" -> Out(op, Len0 > 0, [st EXCEPT !.q = SubSeq(@, 2, Len0), !.b = 0])     \* those held are let go
      [] op.f \in {"populate_raw", "populate_value", "populate_shared"} -> Out(op, Len0 < st.n, Q(Append(st.q, op.v)))
      [] op.f = "acquire" -> Out(op, Len0 = st.n, [st EXCEPT !.b = IF @ < Len0 THEN @ + 1 ELSE @])
Kinds == <<"value", "intermediary", "error">>
Res(op) == Out(op, CASE op.f \in {"value", "arrow", "star", "unwrap"} -> st.n = 1
                     [] op.f \in {"intermediary", "unwrap_intermediary"} -> st.n = 2
                     [] op.f \in {"error", "unwrap_error"} -> st.n = 3, st)
Data(op) == Out(op, CASE op.f = "value" -> st.n = 1 [] op.f = "unsigned" -> st.n = 2 [] op.f = "ms" -> st.n = 3 [] op.f = "s" -> st.n = 4, st)
\* st.b = 1: it has been committed, aborted or moved away
Tx(op) == LET open == st.b = 0 IN
    CASE op.f \in {"commit", "abort"} -> Out(op, open, [st EXCEPT !.b = 1])
      [] op.f = "away" -> Out(op, TRUE, [st EXCEPT !.b = 1])
      [] op.f = "incoming" -> Out(op, open, st)
      [] op.f = "put" -> Out(op, open /\ st.n > 0, [st EXCEPT !.n = @ - 1])
      [] op.f = "puts" -> Out(op, open /\ op.v <= st.n, [st EXCEPT !.n = @ - op.v])
\* a transaction needs a stream and a line
Begin(op) == Out(op, op.stream /\ op.line, [Nothing EXCEPT !.b = 0])
\* st.q: handlers attached to ids 0 and 1 (each has one place); st.b: events in use
Ev(op) == LET known == op.v \in {0, 1} IN
    CASE op.f = "attach" -> Out(op, known /\ st.q[1 + (op.v % 2)] = 0, IF known THEN [st EXCEPT !.q[1 + (op.v % 2)] = 1] ELSE st)
      [] op.f = "attach_null" -> Out(op, FALSE, st)
      [] op.f = "trigger" -> Out(op, known /\ st.q[1 + (op.v % 2)] = 1 /\ st.b < st.n, st)
      [] op.f = "trigger_null" -> Out(op, FALSE, st)
      [] op.f = "take" -> Out(op, st.b < st.n, [st EXCEPT !.b = @ + 1])
      [] op.f = "schedule" -> Out(op, op.v > 0 /\ st.b < st.n, [st EXCEPT !.b = @ + 1])
      [] op.f = "detach" -> Out(op, FALSE, st)
\* an event handler on its own: st.b = 1 once it belongs to a system
Handler(op) ==
    CASE op.f = "adopt" -> Out(op, st.b = 0, [st EXCEPT !.b = 1])
      [] op.f = "adopt_null" -> Out(op, FALSE, st)
      [] op.f = "system" -> Out(op, st.b = 1, st)
      [] op.f = "handle" -> Out(op, FALSE, st)
\* a pipeline on its own: st.q the times its events are due, all in the future
Pipe(op) ==
    CASE op.f = "push" -> Out(op, Len0 < st.n, Q(Append(st.q, op.v)))
      [] op.f = "expire" -> Out(op, FALSE, st)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Once(op) == CASE op.f = "schedule" -> (\A i \in DOMAIN op.a : op.a[i] > 0) /\ Sum(op.a) <= 86400
              [] op.f = "alarm" -> op.a[1] > 0                              \* moment, after the present
              [] op.f = "ring" -> op.a[1] > 0
              [] op.f = "pid" -> op.a[1] > 0                                \* sample interval
              [] op.f = "gains" -> \A i \in 1..3 : op.a[i] >= 0
              [] op.f = "wires" -> \A i \in 1..3 : op.a[i] = 1              \* input, output, set point
              [] op.f = "band" -> op.a[1] >= 10 /\ op.a[1] < 100            \* mantissa, tenths
              [] op.f = "invert" -> op.a[1] >= op.a[2] /\ op.a[1] <= op.a[3]
              [] op.f = "fade" -> op.a[1] >= 0 /\ op.a[1] <= 10             \* tenths
              [] op.f = "stream" -> FALSE                                   \* whatever a stream does not implement
              [] op.f = "nulls" -> op.a[1] = 0                              \* a stack with a filter that is not there
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "vec" -> Is("vec") /\ Vec(op)
              [] op.op = "pool" -> Is("pool") /\ Pool(op)
              [] op.op = "res" -> Is("res") /\ ~(st.n = 2 /\ op.f = "unwrap") /\ Res(op)
              [] op.op = "data" -> Is("data") /\ Data(op)
              [] op.op = "tx" -> Is("tx") /\ Tx(op)
              [] op.op = "begin" -> Begin(op)
              [] op.op = "ev" -> Is("events") /\ Ev(op)
              [] op.op = "handler" -> Is("handler") /\ Handler(op)
              [] op.op = "pipe" -> Is("pipe") /\ (op.f = "expire" => Len0 = 0) /\ Pipe(op)
              [] op.op = "once" -> Is("none") /\ Out(op, Once(op), st)

N(w, s) == {[op |-> "new", w |-> w, n |-> n] : n \in s}
O(f, s) == {[op |-> "once", f |-> f, a |-> x] : x \in s}
MCOps == IF Is("none") THEN N("vec", Caps) \union N("pool", Caps) \union N("res", 1..3) \union N("data", 0..4) \union N("tx", Caps \ {0})
                            \union N("events", Caps) \union N("handler", {0}) \union N("pipe", Caps)
                            \union {[op |-> "begin", stream |-> s, line |-> l] : s \in BOOLEAN, l \in BOOLEAN}
                            \union O("schedule", {<<>>} \union {<<a>> : a \in Nums} \union (Nums \X Nums)) \union O("alarm", {<<a>> : a \in -2..2})
                            \union O("ring", {<<a>> : a \in 0..2}) \union O("pid", {<<a>> : a \in -1..2}) \union O("gains", (-1..1) \X (-1..1) \X (-1..1))
                            \union O("wires", {0, 1} \X {0, 1} \X {0, 1}) \union O("band", {<<a>> : a \in {0, 9, 10, 11, 99, 100, 101}})
                            \union O("invert", (-1..3) \X {0, 1} \X {1, 2}) \union O("fade", {<<a>> : a \in {-1, 0, 5, 10, 11}})
                            \union O("stream", {<<i>> : i \in 0..6}) \union O("nulls", {<<0>>, <<1>>})
         ELSE CASE Is("vec") -> {[op |-> "vec", f |-> f, v |-> v] : f \in {"push_back", "emplace_back", "push_front", "emplace_front"}, v \in Vals}
                                \union {[op |-> "vec", f |-> "insert", i |-> i, v |-> v] : i \in 0..(st.n + 1), v \in Vals}
                                \union {[op |-> "vec", f |-> f] : f \in {"pop_back", "pop_front", "peek_back", "peek_front"}}
                                \union {[op |-> "vec", f |-> f, i |-> i] : f \in {"at", "index", "const_index"}, i \in 0..(st.n + 1)}
                                \union {[op |-> "vec", f |-> "remove", i |-> i] : i \in (0..(st.n + 1)) \ {IF Len0 = 0 THEN -1 ELSE Len0}}
                [] Is("pool") -> {[op |-> "pool", f |-> f] : f \in {"depopulate", "acquire"}}
                                 \union {[op |-> "pool", f |-> f, v |-> v] : f \in {"populate_raw", "populate_value", "populate_shared"}, v \in Vals}
                [] Is("res") -> {[op |-> "res", f |-> f] : f \in {"value", "arrow", "star", "intermediary", "unwrap_intermediary", "error", "unwrap_error"}
                                                                   \union (IF st.n = 2 THEN {} ELSE {"unwrap"})}
                [] Is("data") -> {[op |-> "data", f |-> f] : f \in {"value", "unsigned", "ms", "s"}}
                [] Is("tx") -> {[op |-> "tx", f |-> f] : f \in {"commit", "abort", "away", "incoming", "put"}} \union {[op |-> "tx", f |-> "puts", v |-> v] : v \in 0..3}
                [] Is("events") -> {[op |-> "ev", f |-> f, v |-> v] : f \in {"attach", "trigger"}, v \in 0..3}
                                   \union {[op |-> "ev", f |-> "schedule", v |-> v] : v \in 0..2}
                                   \union {[op |-> "ev", f |-> f, v |-> 0] : f \in {"attach_null", "trigger_null", "take", "detach"}}
                [] Is("handler") -> {[op |-> "handler", f |-> f] : f \in {"adopt", "adopt_null", "system", "handle"}}
                [] Is("pipe") -> {[op |-> "pipe", f |-> "push", v |-> 1]} \union (IF Len0 = 0 THEN {[op |-> "pipe", f |-> "expire"]} ELSE {})
--------------------------------------------------------------------------------
TypeOK == st.w \in {"vec", "pool", "pipe"} => Len0 <= st.n
\* what is reported changes nothing
Harmless == [][ obs'.r.asserted => st' = st ]_vars
================================================================================
