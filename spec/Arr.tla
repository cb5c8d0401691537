---------------------------------- MODULE Arr ----------------------------------
(* spn::structure::Array: two arrays a[1], a[2] and one caller-owned storage st.x *)
(* a[i].ref: "none" (moved from / empty), "own" (holds a[i].q), "ext" (shows st.x),   *)
(* "view" (a copy: shows what the other array owns, which has to outlive it)          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Lens, Vals, XLen, Elems      \* Elems: "int", "wide", "byte" (of which storage can be given as a buffer)
VARIABLES st, obs
vars == <<st, obs>>

Rep(v, n) == [i \in 1 .. n |-> v]
None == [ref |-> "none", q |-> <<>>]
Own(q) == [ref |-> "own", q |-> q]
Ext == [ref |-> "ext", q |-> <<>>]
Copied == [ref |-> "view", q |-> <<>>]

Init == /\ st = [live |-> FALSE, elem |-> "int", a |-> <<None, None>>, x |-> <<>>]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Content(s, i) == CASE s.a[i].ref = "ext" -> s.x [] s.a[i].ref = "view" -> s.a[3 - i].q [] OTHER -> s.a[i].q
Viewed(i) == st.a[3 - i].ref = "view"       \* what it owns is in use: it may not be given up
View(s, i) == LET q == Content(s, i) IN
              [q |-> q, size |-> Len(q), max |-> Len(q), empty |-> q = <<>>,
               front |-> IF q = <<>> THEN -1 ELSE Head(q), back |-> IF q = <<>> THEN -1 ELSE q[Len(q)], agree |-> <<>>]
Out(op, s) == st' = s /\ obs' = [op |-> op, r |-> [a |-> View(s, 1), b |-> View(s, 2), x |-> s.x,
                                            owned |-> Cardinality({i \in 1 .. 2 : s.a[i].ref = "own"})]]   \* storage taken and not given back

Reset(op) == Out(op, [live |-> TRUE, elem |-> op.elem, a |-> <<None, None>>, x |-> op.x])
\* a buffer that is given is wiped
New(op) == Out(op, IF op.kind = "buf" THEN [st EXCEPT !.a[op.s] = Ext, !.x = Rep(0, Len(@))] ELSE [st EXCEPT !.a[op.s] = CASE op.kind = "len" -> Own(Rep(0, op.n))
                                            [] op.kind = "init" -> Own(Rep(op.v, op.n))
                                            [] op.kind = "list" -> Own(op.vs)
                                            [] op.kind = "ext" -> Ext])
Put(s, i, q) == CASE s.a[i].ref = "ext" -> [s EXCEPT !.x = q] [] s.a[i].ref = "view" -> [s EXCEPT !.a[3 - i].q = q] [] OTHER -> [s EXCEPT !.a[i].q = q]
\* from a copy of its own: nothing is new, and what is owned stays so
Copy(op) == Out(op, IF Viewed(op.s) THEN st ELSE [st EXCEPT !.a[op.s] = IF st.a[3 - op.s].ref = "own" THEN Copied ELSE st.a[3 - op.s]])
Set(op) == Out(op, Put(st, op.s, [Content(st, op.s) EXCEPT ![op.i + 1] = op.v]))
Fill(op) == Out(op, Put(st, op.s, Rep(op.v, Len(Content(st, op.s)))))
Poke(op) == Out(op, [st EXCEPT !.x[op.i + 1] = op.v])
List(op) == Out(op, [st EXCEPT !.a[op.s] = Own(op.vs)])
Move(op) == Out(op, [st EXCEPT !.a[op.s] = IF Viewed(op.s) THEN @ ELSE st.a[3 - op.s], !.a[3 - op.s] = None])
Swap(op) == Out(op, [st EXCEPT !.a = <<st.a[2], st.a[1]>>])

Step(op) == CASE op.op = "reset" -> Reset(op)
              [] op.op = "new" -> st.live /\ ~Viewed(op.s) /\ (op.kind = "buf" => st.elem = "byte") /\ New(op)
              [] op.op = "set" -> st.live /\ op.i < Len(Content(st, op.s)) /\ Set(op)
              [] op.op = "fill" -> st.live /\ Fill(op)
              [] op.op = "poke" -> st.live /\ op.i < Len(st.x) /\ Poke(op)
              [] op.op = "list" -> st.live /\ ~Viewed(op.s) /\ List(op)
              [] op.op = "move" -> st.live /\ Move(op)
              [] op.op = "movec" -> st.live /\ ~Viewed(op.s) /\ Move(op)
              [] op.op = "copy" -> st.live /\ Copy(op)
              [] op.op = "copyc" -> st.live /\ ~Viewed(op.s) /\ Copy(op)
              [] op.op = "self" -> st.live /\ Out(op, st)
              [] op.op = "swap" -> st.live /\ Swap(op)

Seqs(ns) == UNION {[1 .. n -> Vals] : n \in ns}
MCOps == IF ~st.live THEN {[op |-> "reset", x |-> Rep(0, XLen), elem |-> e] : e \in Elems}
         ELSE {o \in {[op |-> "new", s |-> s, kind |-> "len", n |-> n] : s \in 1 .. 2, n \in Lens}
              \union {[op |-> "new", s |-> s, kind |-> "init", n |-> n, v |-> v] : s \in 1 .. 2, n \in Lens, v \in Vals}
              \union {[op |-> "new", s |-> s, kind |-> "list", vs |-> v] : s \in 1 .. 2, v \in Seqs(Lens)}
              \union {[op |-> "new", s |-> s, kind |-> "ext"] : s \in 1 .. 2}
              \union (IF st.elem = "byte" THEN {[op |-> "new", s |-> s, kind |-> "buf"] : s \in 1 .. 2} ELSE {})
              \union {[op |-> "list", s |-> s, vs |-> v] : s \in 1 .. 2, v \in Seqs(Lens)}
              \union {[op |-> o, s |-> s] : o \in {"move", "movec", "copy", "copyc"}, s \in 1 .. 2} : ~Viewed(o.s) \/ o.op \in {"copy", "move"}}
              \union {[op |-> "self", s |-> s, how |-> h] : s \in 1 .. 2, h \in {"copy", "move"}}
              \union {[op |-> "fill", s |-> s, v |-> v] : s \in 1 .. 2, v \in Vals}
              \union UNION {{[op |-> "set", s |-> s, i |-> i, v |-> v, how |-> h] : i \in 0 .. Len(Content(st, s)) - 1, v \in Vals,
                              h \in {"[]", "at", "it"}} : s \in 1 .. 2}
              \union {[op |-> "poke", i |-> i, v |-> v] : i \in 0 .. Len(st.x) - 1, v \in Vals}
              \union {[op |-> "swap"]}
TypeOK == Len(st.a) = 2 /\ \A i \in 1 .. 2 : st.a[i].ref = "view" => st.a[3 - i].ref = "own"
\* a copy shows the same elements as what it was copied from, now and after every write through either
SameElements == \A i \in 1 .. 2 : st.a[i].ref = "view" => Content(st, i) = Content(st, 3 - i)
OnlyThatPosition == [][ obs'.op.op = "set" =>
      LET p == Content(st, obs'.op.s) n == Content(st', obs'.op.s) IN
      Len(n) = Len(p) /\ \A i \in DOMAIN n : n[i] = (IF i = obs'.op.i + 1 THEN obs'.op.v ELSE p[i]) ]_vars
SwapExchanges == [][ obs'.op.op = "swap" => Content(st', 1) = Content(st, 2) /\ Content(st', 2) = Content(st, 1) ]_vars
================================================================================
