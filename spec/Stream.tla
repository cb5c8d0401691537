-------------------------------- MODULE Stream --------------------------------
(* spn::io::BufferedStream and spn::io::Transaction over an underlying stream    *)
(* that may offer bytes at any time, accept only some bytes (back-pressure) and  *)
(* fail any single read or write.                                                *)
(* st.inp / st.out  : the two buffers, oldest byte first                         *)
(* st.pend          : bytes still waiting in the underlying stream               *)
(* st.tx, st.tq     : the transaction object and how many bytes it has queued    *)
(* st.ioff          : physical position of the oldest input byte (unobservable)  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS ICaps, OCaps, Delims, Chars, Arrivals, MaxPend, OutChars, Writes, MaxPull, Mode
VARIABLES st, obs
vars == <<st, obs>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Keep(s, n) == SubSeq(s, 1, n)
Range(s) == {s[i] : i \in DOMAIN s}
LineLen(q, del) == LET D == {i \in 1 .. Len(q) : q[i] \in Range(del)} IN
                   IF D = {} THEN 0 ELSE CHOOSE i \in D : \A j \in D : i <= j

Init == /\ st = [live |-> FALSE, icap |-> 1, ocap |-> 1, del |-> <<>>, ioff |-> 0, inp |-> <<>>, pend |-> <<>>,
                 out |-> <<>>, tx |-> "none", tq |-> 0]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]

Line(s) == Keep(s.inp, LineLen(s.inp, s.del) - 1)
Proj(s) == [iused |-> Len(s.inp), ileft |-> s.icap - Len(s.inp), oused |-> Len(s.out), oleft |-> s.ocap - Len(s.out),
            len |-> LineLen(s.inp, s.del), has |-> LineLen(s.inp, s.del) > 0,
            pend |-> s.pend,
            q |-> s.out,                           \* what a flush into an unlimited stream would deliver now
            tfin |-> s.tx # "open",
            tin |-> IF s.tx = "open" THEN Line(s) ELSE <<-1>>,
            tused |-> s.tq, tleft |-> IF s.tx = "none" THEN 0 ELSE s.ocap - Len(s.out)]
Out(op, s, res) == st' = s /\ obs' = [op |-> op, r |-> [res |-> res] @@ Proj(s)]

New(op) == Out(op, [st EXCEPT !.live = TRUE, !.icap = op.icap, !.ocap = op.ocap, !.del = op.del, !.ioff = 0,
                    !.inp = <<>>, !.pend = <<>>, !.out = <<>>, !.tx = "none", !.tq = 0], 0)

\* ---- input
TakeIn(s, n) == [s EXCEPT !.inp = Drop(s.inp, n), !.ioff = (s.ioff + n) % s.icap]

Arrive(op) == Out(op, [st EXCEPT !.pend = st.pend \o op.vs], 0)

\* one byte after the other; the read number `fail` (counted from 0) fails
RECURSIVE PullLoop(_, _, _)
PullLoop(s, n, fail) ==
    IF s.pend = <<>> \/ n = fail \/ (Len(s.inp) = s.icap /\ LineLen(s.inp, s.del) > 0) THEN [s |-> s, n |-> n]
    ELSE LET room == IF Len(s.inp) = s.icap THEN TakeIn(s, 1) ELSE s IN
         PullLoop([room EXCEPT !.inp = Append(room.inp, Head(s.pend)), !.pend = Tail(s.pend)], n + 1, fail)
Pull(op) == LET p == PullLoop(st, 0, op.fail) IN Out(op, p.s, p.n)

L == LineLen(st.inp, st.del)
\* showing a line that wraps moves the content to the physical start; not observable
Linear(s) == IF L > 0 /\ s.ioff + L - 1 > s.icap THEN [s EXCEPT !.ioff = 0] ELSE s
View(op) == IF L = 0 THEN Out(op, st, <<-1>>) ELSE Out(op, Linear(st), Line(st))
Copy(op) == IF L = 0 \/ L > op.max THEN Out(op, st, [n |-> 0, s |-> <<-1>>])
            ELSE Out(op, TakeIn(st, L), [n |-> L - 1, s |-> Line(st)])
DropLine(op) == IF L = 0 THEN Out(op, st, 0) ELSE Out(op, TakeIn(st, L), 1)

\* ---- output
Accept(s, vs, roll) == IF roll THEN LET all == s.out \o vs IN [s EXCEPT !.out = Drop(all, Max(0, Len(all) - s.ocap))]
                       ELSE [s EXCEPT !.out = s.out \o Keep(vs, Min(Len(vs), s.ocap - Len(s.out)))]
Taken(s, vs, roll) == IF roll THEN Len(vs) ELSE Min(Len(vs), s.ocap - Len(s.out))

Write(op) == Out(op, Accept(st, op.vs, op.roll), Taken(st, op.vs, op.roll))
\* the underlying stream has room for `room` bytes; its write number `fail` fails
Flush(op) == LET n == Min(Min(Len(st.out), op.room), IF op.fail < 0 THEN Len(st.out) ELSE op.fail) IN
             Out(op, [st EXCEPT !.out = Drop(st.out, n)], [n |-> n, sent |-> Keep(st.out, n)])
DropLast(op) == LET n == Min(op.n, Len(st.out)) IN Out(op, [st EXCEPT !.out = Keep(st.out, Len(st.out) - n)], n)
DropFirst(op) == LET n == Min(op.n, Len(st.out)) IN Out(op, [st EXCEPT !.out = Drop(st.out, n)], n)

\* ---- transactions (one at a time)
Begin(op) == IF L = 0 THEN Out(op, [st EXCEPT !.tx = IF op.op = "tassign" THEN "done" ELSE "none", !.tq = 0], 0)
             ELSE Out(op, [Linear(st) EXCEPT !.tx = "open", !.tq = 0], 1)
Reply(op) == LET n == Taken(st, op.vs, FALSE) IN
             Out(op, [Accept(st, op.vs, FALSE) EXCEPT !.tq = st.tq + n], n)
Close(s) == [TakeIn(s, L) EXCEPT !.tx = "done", !.tq = 0]
Commit(op) == Out(op, Close(st), 0)
Abort(op) == Out(op, Close([st EXCEPT !.out = Keep(st.out, Len(st.out) - Min(st.tq, Len(st.out)))]), 0)
Destroy(op) == Out(op, [(IF st.tx = "open" THEN Close(st) ELSE st) EXCEPT !.tx = "none", !.tq = 0], 0)
Move(op) == Out(op, st, 0)      \* the moved-to object is the transaction now; the old one is destroyed

Open == st.tx = "open"
Step(op) == CASE op.op = "new"    -> New(op)
              [] op.op = "arrive" -> st.live /\ Arrive(op)
              [] op.op = "pull"   -> st.live /\ Pull(op)
              [] op.op = "view"   -> st.live /\ View(op)
              [] op.op = "copy"   -> st.live /\ ~Open /\ Copy(op)
              [] op.op = "drop"   -> st.live /\ ~Open /\ DropLine(op)
              [] op.op = "write"  -> st.live /\ ~Open /\ Write(op)
              [] op.op = "flush"  -> st.live /\ Flush(op)
              [] op.op = "dropl"  -> st.live /\ ~Open /\ op.n > 0 /\ DropLast(op)
              [] op.op = "dropf"  -> st.live /\ ~Open /\ op.n > 0 /\ DropFirst(op)
              [] op.op = "begin"  -> st.live /\ ~Open /\ Begin(op)
              [] op.op = "tassign" -> st.live /\ st.tx = "done" /\ Begin(op)
              [] op.op = "reply"  -> st.live /\ Open /\ (op.cut \/ Len(op.vs) <= st.ocap - Len(st.out)) /\ Reply(op)
              [] op.op = "commit" -> st.live /\ Open /\ Commit(op)
              [] op.op = "abort"  -> st.live /\ Open /\ Abort(op)
              [] op.op = "destroy" -> st.live /\ st.tx # "none" /\ Destroy(op)
              [] op.op \in {"tmove", "tself"} -> st.live /\ Open /\ Move(op)

Words(C, Ns) == UNION {[1 .. n -> C] : n \in Ns}
News == {[op |-> "new", icap |-> i, ocap |-> o, del |-> d] : i \in ICaps, o \in OCaps, d \in Delims}
InOps == {[op |-> "arrive", vs |-> v] : v \in {w \in Words(Chars, Arrivals) : Len(st.pend) + Len(w) <= MaxPend}}
         \union {[op |-> "pull", fail |-> f] : f \in -1 .. Min(MaxPull, Len(st.pend))}
LineOps == {[op |-> o, known |-> k] : o \in {"view", "drop"}, k \in BOOLEAN}
           \union {[op |-> "copy", max |-> m, known |-> k] : m \in {0, L, L + 1, Max(0, L - 1)}, k \in BOOLEAN}
OutOps == {[op |-> "write", vs |-> v, roll |-> b] : v \in Words(OutChars, Writes), b \in BOOLEAN}
          \union {[op |-> "flush", room |-> m, fail |-> f] : m \in 0 .. st.ocap + 1, f \in -1 .. st.ocap}
          \union {[op |-> o, n |-> n] : o \in {"dropl", "dropf"}, n \in 1 .. st.ocap + 1}
TxOps == IF Open THEN {[op |-> o] : o \in {"commit", "abort", "destroy", "tmove", "tself"}}
                      \union {[op |-> "reply", vs |-> v, one |-> Len(v) = 1 /\ b, cut |-> Mode = "tx"] :
                              v \in {[i \in 1 .. n |-> 98] : n \in {m \in 0 .. 3 : st.tq + m <= st.ocap + 2 /\ (Mode = "tx" \/ m <= st.ocap - Len(st.out))}}, b \in BOOLEAN}
                      \union {[op |-> "flush", room |-> m, fail |-> -1] : m \in {1, st.ocap}}
                      \union {[op |-> "view", known |-> FALSE]}
         ELSE {[op |-> "begin"]} \union {[op |-> "write", vs |-> <<97>>, roll |-> FALSE]}
              \union {[op |-> "flush", room |-> m, fail |-> -1] : m \in {1, st.ocap}}
              \union {[op |-> "drop", known |-> FALSE]}
              \union {[op |-> o] : o \in {p \in {"tassign", "destroy"} : st.tx = "done"}}
MCOps == IF ~st.live THEN News
         ELSE CASE Mode = "in" -> InOps \union LineOps
                [] Mode = "out" -> OutOps
                [] OTHER -> InOps \union TxOps

-------------------------------------------------------------------------------
TypeOK == Len(st.inp) <= st.icap /\ Len(st.out) <= st.ocap
          /\ (Open => LineLen(st.inp, st.del) > 0)        \* the line of an open transaction stays buffered
\* C03: while a complete line waits in the input buffer, pulling never gives up a byte
NoLineLost == [][ (obs'.op.op = "pull" /\ L > 0) => Keep(st'.inp, Len(st.inp)) = st.inp ]_vars
PullInOrder == [][ obs'.op.op = "pull" =>
      /\ obs'.r.res + Len(st'.pend) = Len(st.pend) /\ Drop(st.pend, obs'.r.res) = st'.pend
      /\ \E k \in 0 .. Len(st.inp) + obs'.r.res : st'.inp = Drop(st.inp \o Keep(st.pend, obs'.r.res), k) ]_vars
\* a full buffer without a line lets input through
NoStall == [][ (obs'.op.op = "pull" /\ obs'.op.fail = -1) =>
      (st'.pend = <<>> \/ (Len(st'.inp) = st.icap /\ LineLen(st'.inp, st'.del) > 0)) ]_vars
\* C04
ExactlyOnce == [][ CASE obs'.op.op = "flush" -> obs'.r.res.sent \o st'.out = st.out
                     [] obs'.op.op = "write" /\ ~obs'.op.roll -> st'.out = st.out \o Keep(obs'.op.vs, obs'.r.res)
                     [] obs'.op.op \in {"pull", "arrive", "view", "drop", "copy", "commit", "destroy", "begin"} -> st'.out = st.out
                     [] OTHER -> TRUE ]_vars
\* C05
AbortKeepsOthers == [][ obs'.op.op = "abort" => \E n \in 0 .. st.tq : st'.out = Keep(st.out, Len(st.out) - n)
                                                   /\ (n = st.tq \/ st'.out = <<>>) ]_vars
OneLineEaten == [][ (st.tx = "open" /\ st'.tx # "open" /\ st'.live /\ obs'.op.op # "new") => st'.inp = Drop(st.inp, L) ]_vars
===============================================================================
