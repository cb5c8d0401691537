-------------------------------- MODULE Ring --------------------------------
(* spn::structure::RingBuffer as a bounded FIFO sequence.                      *)
(* st.off is the physical position of the oldest element: it is not part of   *)
(* the observable behaviour, but keeping it makes TLC enumerate every position *)
(* of the content relative to the physical end of the store.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Caps,      \* capacities
          Vals,      \* element values
          Bulk,      \* lengths of bulk operations
          MaxOver    \* bound on the overrun count in the exhaustive instance

VARIABLES st, obs
vars == <<st, obs>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))            \* without the first n
Keep(s, n) == SubSeq(s, 1, n)                     \* the first n
Tail2(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))  \* the last n

Init == /\ st = [live |-> FALSE, cap |-> 1, off |-> 0, q |-> <<>>, over |-> 0]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]

\* What every call lets one see afterwards
Proj(s) == [used |-> Len(s.q), free |-> s.cap - Len(s.q), empty |-> Len(s.q) = 0, full |-> Len(s.q) = s.cap,
            cap |-> s.cap, over |-> s.over, q |-> s.q]

Out(op, s, res) == /\ st' = s
                   /\ obs' = [op |-> op, r |-> [res |-> res] @@ Proj(s)]

New(op) == Out(op, [live |-> TRUE, cap |-> op.cap, off |-> 0, q |-> <<>>, over |-> 0], 0)

\* push of a whole sequence: without rollover the prefix that fits, with it everything
PushAll(s, vs, roll) ==
    IF roll
    THEN LET all == s.q \o vs
             lost == Max(0, Len(all) - s.cap)
         IN [s EXCEPT !.q = Drop(all, lost), !.off = (s.off + lost) % s.cap, !.over = s.over + lost]
    ELSE LET n == Min(Len(vs), s.cap - Len(s.q)) IN [s EXCEPT !.q = s.q \o Keep(vs, n)]
Accepted(s, vs, roll) == IF roll THEN Len(vs) ELSE Min(Len(vs), s.cap - Len(s.q))

Push(op)  == Out(op, PushAll(st, <<op.v>>, op.roll), Accepted(st, <<op.v>>, op.roll))
PushN(op) == Out(op, PushAll(st, op.vs, op.roll), Accepted(st, op.vs, op.roll))

TakeFirst(s, n) == [s EXCEPT !.q = Drop(s.q, n), !.off = (s.off + n) % s.cap]

\* single pops: `val` is the popped value or -1; a successful pop marks the overrun as read
Pop(op) == IF st.q = <<>> THEN Out(op, st, -1)
           ELSE Out(op, [TakeFirst(st, 1) EXCEPT !.over = 0], IF op.op = "pop0" THEN 0 ELSE Head(st.q))
\* bulk pop: all or nothing
PopN(op) == IF Len(st.q) < op.n THEN Out(op, st, <<>>)
            ELSE Out(op, [TakeFirst(st, op.n) EXCEPT !.over = IF op.n = 0 THEN st.over ELSE 0], Keep(st.q, op.n))

Peek(op) == Out(op, st, IF op.i < Len(st.q) THEN st.q[op.i + 1] ELSE -1)

Amount(n) == IF n = 0 THEN Len(st.q) ELSE Min(n, Len(st.q))
DropLast(op) == LET n == Amount(op.n) IN
    Out(op, [st EXCEPT !.q = Keep(st.q, Len(st.q) - n), !.over = Max(0, st.over - n)], n)
\* how far dropping from the front lowers the overrun count is left open; it never raises it
DropFirst(op) == LET n == Amount(op.n) IN
    \E o \in 0 .. st.over : Out(op, [TakeFirst(st, n) EXCEPT !.over = o], n)
Clear(op) == \E o \in 0 .. st.over : Out(op, [st EXCEPT !.q = <<>>, !.over = o], 0)

Step(op) == CASE op.op = "new"   -> New(op)
              [] op.op = "push"  -> st.live /\ Push(op)
              [] op.op = "pushn" -> st.live /\ PushN(op)
              [] op.op \in {"pop", "pop0"} -> st.live /\ Pop(op)
              [] op.op = "popn"  -> st.live /\ PopN(op)
              [] op.op \in {"peek", "peekp"}  -> st.live /\ Peek(op)
              [] op.op = "dropl" -> st.live /\ DropLast(op)
              [] op.op = "dropf" -> st.live /\ DropFirst(op)
              [] op.op = "clear" -> st.live /\ Clear(op)

------------------------------------------------------------------------------
\* The operations of the exhaustive instance. Values within one bulk push are distinct by position.
Bulks == UNION {[1 .. n -> Vals] : n \in Bulk}
MCOps ==
    IF ~st.live THEN {[op |-> "new", cap |-> c] : c \in Caps}
    ELSE {o \in {[op |-> "push", v |-> v, roll |-> b] : v \in Vals, b \in BOOLEAN}
                \union {[op |-> "pushn", vs |-> vs, roll |-> b] : vs \in Bulks, b \in BOOLEAN} :
              o.roll => st.over < MaxOver}
         \union {[op |-> o] : o \in {"pop", "pop0", "clear"}}
         \union {[op |-> "popn", n |-> n] : n \in 0 .. st.cap + 1}
         \union {[op |-> o, i |-> i] : o \in {"peek", "peekp"}, i \in {0, st.cap - 1, st.cap}}
         \union {[op |-> o, n |-> n] : o \in {"dropl", "dropf"}, n \in 0 .. st.cap + 1}

------------------------------------------------------------------------------
\* Properties of the design
TypeOK == Len(st.q) <= st.cap /\ st.off \in 0 .. st.cap - 1 /\ st.over >= 0
Accounting == obs.op.op # "init" =>
    /\ obs.r.used + obs.r.free = obs.r.cap
    /\ obs.r.empty = (obs.r.used = 0)
    /\ obs.r.full = (obs.r.free = 0)

IsSuffix(a, b) == Len(a) <= Len(b) /\ a = Tail2(b, Len(a))
\* every step keeps a contiguous part of the old content (and only pushes append to it)
OrderKept == [][ obs'.op.op = "new" \/
    \E i \in 0 .. Len(st.q) : \E k \in 0 .. Len(st.q) - i :
        LET kept == SubSeq(st.q, i + 1, i + k) IN
        IF obs'.op.op = "push" THEN st'.q = kept \o <<obs'.op.v>> \/ (st'.q = st.q /\ obs'.r.res = 0)
        ELSE IF obs'.op.op = "pushn" THEN \/ (~obs'.op.roll /\ st'.q = st.q \o Keep(obs'.op.vs, obs'.r.res))
                                          \/ (obs'.op.roll /\ IsSuffix(st'.q, st.q \o obs'.op.vs))
        ELSE st'.q = kept ]_vars
CapConstant == [][obs'.op.op # "new" => st'.cap = st.cap]_vars
OverrunOnlyByRollover == [][ (obs'.op.op \notin {"push", "pushn"} /\ obs'.op.op # "new") => st'.over <= st.over ]_vars
=============================================================================
