-------------------------------- MODULE Line --------------------------------
(* spn::structure::LineBuffer: a bounded FIFO of bytes framed by delimiters.   *)
(* Bytes are their codes. st.off is the physical position of the oldest byte   *)
(* (not observable, enumerated so that every wrap position is exercised).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Caps, Chars, Delims, Writes   \* Delims: set of sequences; Writes: lengths of string pushes

VARIABLES st, obs
vars == <<st, obs>>

Min(a, b) == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Keep(s, n) == SubSeq(s, 1, n)
Range(s) == {s[i] : i \in DOMAIN s}

\* length of the next line including its delimiter, 0 when no delimiter is stored
LineLen(q, del) == LET D == {i \in 1 .. Len(q) : q[i] \in Range(del)} IN
                   IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j

Init == /\ st = [live |-> FALSE, cap |-> 1, off |-> 0, q |-> <<>>, del |-> <<>>]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]

Proj(s) == [used |-> Len(s.q), free |-> s.cap - Len(s.q), q |-> s.q, len |-> LineLen(s.q, s.del),
            has |-> LineLen(s.q, s.del) > 0, del |-> s.del]
Out(op, s, res) == st' = s /\ obs' = [op |-> op, r |-> [res |-> res] @@ Proj(s)]

TakeFirst(s, n) == [s EXCEPT !.q = Drop(s.q, n), !.off = (s.off + n) % s.cap]

New(op) == Out(op, [live |-> TRUE, cap |-> op.cap, off |-> 0, q |-> <<>>, del |-> op.del], 0)
Push(op) == LET n == Min(Len(op.vs), st.cap - Len(st.q)) IN Out(op, [st EXCEPT !.q = st.q \o Keep(op.vs, n)], n)
PushRoll(op) == IF Len(st.q) < st.cap THEN Out(op, [st EXCEPT !.q = Append(st.q, op.v)], 1)
                ELSE Out(op, [TakeFirst(st, 1) EXCEPT !.q = Append(Tail(st.q), op.v)], 1)
SetDel(op) == Out(op, [st EXCEPT !.del = op.del], 0)

L == LineLen(st.q, st.del)
\* a view never changes the content; the code may move a wrapped line to the physical start
View(op) == IF L = 0 THEN Out(op, st, <<-1>>)
            ELSE Out(op, IF st.off + L - 1 > st.cap THEN [st EXCEPT !.off = 0] ELSE st, Keep(st.q, L - 1))
Copy(op) == IF L = 0 \/ L > op.max THEN Out(op, st, [n |-> 0, s |-> <<-1>>])
            ELSE Out(op, TakeFirst(st, L), [n |-> L - 1, s |-> Keep(st.q, L - 1)])
DropLine(op) == IF L = 0 THEN Out(op, st, 0) ELSE Out(op, TakeFirst(st, L), 1)
Pop(op) == IF st.q = <<>> THEN Out(op, st, -1) ELSE Out(op, TakeFirst(st, 1), Head(st.q))

Step(op) == CASE op.op = "new"   -> New(op)
              [] op.op = "push"  -> st.live /\ Push(op)
              [] op.op = "pushr" -> st.live /\ PushRoll(op)
              [] op.op = "setdel" -> st.live /\ SetDel(op)
              [] op.op = "view"  -> st.live /\ View(op)
              [] op.op = "copy"  -> st.live /\ Copy(op)
              [] op.op = "drop"  -> st.live /\ DropLine(op)
              [] op.op = "pop"   -> st.live /\ Pop(op)

MCOps == IF ~st.live THEN {[op |-> "new", cap |-> c, del |-> d] : c \in Caps, d \in Delims}
         ELSE {[op |-> "push", vs |-> v] : v \in UNION {[1 .. n -> Chars] : n \in Writes}}
              \union {[op |-> "pushr", v |-> v] : v \in Chars}
              \union {[op |-> "setdel", del |-> d] : d \in Delims}
              \union {[op |-> o, known |-> k] : o \in {"view", "drop"}, k \in BOOLEAN}
              \union {[op |-> "copy", max |-> m, known |-> k] : m \in 0 .. st.cap + 1, k \in BOOLEAN}
              \union {[op |-> "pop"]}

------------------------------------------------------------------------------
TypeOK == Len(st.q) <= st.cap
\* what the operations hand out is the head of the stored bytes, up to the first delimiter, exactly once
Framing == [][ CASE obs'.op.op = "copy" /\ obs'.r.res.s # <<-1>> ->
                      \E d \in Range(st.del) : st.q = obs'.r.res.s \o <<d>> \o st'.q
                                               /\ Range(obs'.r.res.s) \cap Range(st.del) = {}
                 [] obs'.op.op = "view" -> st'.q = st.q /\ (obs'.r.res # <<-1>> =>
                      Keep(st.q, Len(obs'.r.res)) = obs'.r.res /\ st.q[Len(obs'.r.res) + 1] \in Range(st.del))
                 [] obs'.op.op = "drop" /\ obs'.r.res = 1 -> LineLen(st.q, st.del) + Len(st'.q) = Len(st.q)
                 [] OTHER -> TRUE ]_vars
NoLineNoLoss == [][ (obs'.op.op \in {"copy", "drop", "view"} /\ LineLen(st.q, st.del) = 0) => st'.q = st.q ]_vars
=============================================================================
