---------------------------------- MODULE Vec ----------------------------------
(* spn::structure::Vector: a bounded double-ended sequence. Elements are numbers; *)
(* in the owning reading (Own) the number names an object shared by every position *)
(* that holds it and by the caller's references (st.held).                         *)
(* st.off is the physical index of the first element (unobservable; enumerated).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Caps, Vals, Own, Lists, MaxHeld,
          Dbg      \* a debug build, which reports an element refused for want of room by an assertion
VARIABLES st, obs
vars == <<st, obs>>

Min(a, b) == IF a < b THEN a ELSE b
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Keep(s, n) == SubSeq(s, 1, n)
Rep(v, n) == [i \in 1 .. n |-> v]

Init == /\ st = [live |-> FALSE, cap |-> 0, off |-> 0, q |-> <<>>, held |-> <<>>]
        /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]

Occ(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
Count(s, v) == Occ(s.q, v) + s.held[v]
Counts(s) == [v \in DOMAIN s.held |-> Count(s, v)]
Proj(s) == [q |-> s.q, agree |-> <<>>,              \* every way of reading the content shows q
            size |-> Len(s.q), empty |-> Len(s.q) = 0, full |-> Len(s.q) = s.cap, cap |-> s.cap,
            front |-> IF s.q = <<>> THEN -1 ELSE Head(s.q), back |-> IF s.q = <<>> THEN -1 ELSE s.q[Len(s.q)],
            cnt |-> Counts(s)]                       \* references to each object; 0: destroyed
Out(op, s, res) == /\ st' = [s EXCEPT !.off = IF s.q = <<>> THEN 0 ELSE s.off]
                   /\ obs' = [op |-> op, r |-> [res |-> res] @@ Proj(s) @@
                                       (IF Dbg THEN [asserted |-> op.op \in {"pushb", "pushf", "insert"} /\ Len(st.q) = st.cap] ELSE <<>>)]

\* creation replaces the previous vector, which is destroyed
New(op) == LET h == IF ~op.reset THEN st.held ELSE Rep(0, op.ids)
               s == [live |-> TRUE, cap |-> op.cap, off |-> 0, held |-> h,
                     q |-> CASE op.kind = "cap" -> <<>>
                             [] op.kind = "init" -> Rep(op.vs[1], op.cap)
                             [] op.kind \in {"list", "ext"} -> op.vs]
           IN Out(op, s, 0)

Room(s) == s.off + Len(s.q) < s.cap
Compact(s) == IF Room(s) \/ s.off = 0 THEN s ELSE [s EXCEPT !.off = 0]
\* an element for which there is no room is refused
PushBack(op) == Out(op, IF Len(st.q) < st.cap THEN [Compact(st) EXCEPT !.q = Append(st.q, op.v)] ELSE st, 0)
PushFront(op) == Out(op, IF Len(st.q) = st.cap THEN st ELSE [st EXCEPT !.q = <<op.v>> \o st.q, !.off = IF st.off > 0 THEN st.off - 1 ELSE 0], 0)
Insert(op) == IF Len(st.q) = st.cap THEN Out(op, st, 0) ELSE IF op.i = 0 THEN PushFront(op) ELSE IF op.i >= Len(st.q) THEN PushBack(op)
              ELSE Out(op, [Compact(st) EXCEPT !.q = Keep(st.q, op.i) \o <<op.v>> \o Drop(st.q, op.i)], 0)
\* the caller keeps the returned element or lets it go
Give(s, v, keep) == IF keep THEN [s EXCEPT !.held[v] = @ + 1] ELSE s
PopBack(op) == LET v == st.q[Len(st.q)] IN Out(op, Give([st EXCEPT !.q = Keep(st.q, Len(st.q) - 1)], v, op.keep), v)
PopFront(op) == LET v == Head(st.q) IN Out(op, Give([st EXCEPT !.q = Tail(st.q), !.off = st.off + 1], v, op.keep), v)
Remove(op) == IF op.i = 0 THEN PopFront(op) ELSE IF op.i = Len(st.q) THEN PopBack(op)
              ELSE LET v == st.q[op.i + 1] IN
                   Out(op, Give([st EXCEPT !.q = Keep(st.q, op.i) \o Drop(st.q, op.i + 1)], v, op.keep), v)
Set(op) == Out(op, [st EXCEPT !.q[op.i + 1] = op.v], 0)
Clear(op) == Out(op, [st EXCEPT !.q = <<>>], 0)
Fill(op) == Out(op, [st EXCEPT !.q = Rep(op.v, st.cap), !.off = 0], 0)
Assign(op) == Out(op, [st EXCEPT !.q = op.vs, !.cap = Len(op.vs), !.off = 0], 0)
\* exchange with a vector of capacity op.cap holding op.vs from physical index op.k; the result is what that one got
Swap(op) == Out(op, [st EXCEPT !.q = op.vs, !.cap = op.cap, !.off = op.k], [q |-> st.q, cap |-> st.cap])
\* moved into another vector, which leaves this one empty, and back (by construction or assignment)
Move(op) == Out(op, st, 1)
\* a copy shows the same content; this one stays what it is when the copy is let go, or assigned back
Copy(op) == Out(op, st, [q |-> st.q, cap |-> st.cap])
Hold(op) == Out(op, [st EXCEPT !.held[op.v] = @ + 1], 0)
Unhold(op) == Out(op, [st EXCEPT !.held[op.v] = @ - 1], 0)

\* where op.own is given, the value is passed as a reference to that element of the vector itself
Source(op) == "own" \in DOMAIN op => op.own \in DOMAIN st.q /\ op.v = st.q[op.own]
NotEmpty == st.q # <<>>
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "pushb" -> st.live /\ Source(op) /\ PushBack(op)
              [] op.op = "pushf" -> st.live /\ Source(op) /\ PushFront(op)
              [] op.op = "insert" -> st.live /\ Source(op) /\ Insert(op)
              [] op.op = "popb" -> st.live /\ NotEmpty /\ PopBack(op)
              [] op.op = "popf" -> st.live /\ NotEmpty /\ PopFront(op)
              [] op.op = "remove" -> st.live /\ NotEmpty /\ op.i <= Len(st.q) /\ Remove(op)
              [] op.op = "set" -> st.live /\ op.i < Len(st.q) /\ Set(op)
              [] op.op = "clear" -> st.live /\ Clear(op)
              [] op.op = "fill" -> st.live /\ Source(op) /\ Fill(op)
              [] op.op = "assign" -> st.live /\ Assign(op)
              [] op.op = "swap" -> st.live /\ Swap(op)
              [] op.op = "move" -> st.live /\ Move(op)
              [] op.op = "copy" -> st.live /\ Copy(op)
              [] op.op = "hold" -> st.live /\ Count(st, op.v) > 0 /\ Hold(op)
              [] op.op = "unhold" -> st.live /\ st.held[op.v] > 0 /\ Unhold(op)

Ids == IF Own THEN Cardinality(Vals) ELSE 0
Seqs(ns) == UNION {[1 .. n -> Vals] : n \in ns}
Keeps(v) == IF Own /\ st.held[v] < MaxHeld THEN BOOLEAN ELSE {FALSE}
News == {[op |-> "new", kind |-> "cap", cap |-> c, vs |-> <<>>, ids |-> Ids, reset |-> ~st.live] : c \in Caps}
        \union {[op |-> "new", kind |-> "init", cap |-> c, vs |-> <<1>>, ids |-> Ids, reset |-> ~st.live] : c \in Caps}
        \union {[op |-> "new", kind |-> "list", cap |-> Len(v), vs |-> v, ids |-> Ids, reset |-> ~st.live] : v \in Seqs(Lists)}
        \union {[op |-> "new", kind |-> "ext", cap |-> c, vs |-> [i \in 1 .. n |-> 1], ids |-> Ids, reset |-> ~st.live] :
                   c \in IF Own THEN {} ELSE Caps \cap 1 .. 4, n \in {0, 1}}
MCOps == IF ~st.live THEN News
         ELSE {[op |-> "pushb", v |-> v, emp |-> e] : v \in Vals, e \in BOOLEAN}
              \union {[op |-> o] : o \in {"clear"}}
              \union {[op |-> "move", how |-> h] : h \in {"ctor", "assign", "self"}}
              \union {[op |-> "copy", how |-> h] : h \in {"ctor", "assign", "back", "self"}}
              \union {[op |-> "fill", v |-> v] : v \in Vals}
              \union {[op |-> "assign", vs |-> v] : v \in Seqs({n \in Lists : n \in Caps})}
              \union UNION {{[op |-> "swap", cap |-> c, k |-> k, vs |-> [i \in 1 .. (c - k) |-> 1]] : k \in {0, 1} \cap 0 .. (c - 1)} : c \in Caps}
              \union {[op |-> "pushb", v |-> st.q[i], emp |-> FALSE, own |-> i] : i \in DOMAIN st.q}
              \union {[op |-> "fill", v |-> st.q[i], own |-> i] : i \in DOMAIN st.q}
              \union {[op |-> "pushf", v |-> st.q[i], emp |-> FALSE, own |-> i] : i \in DOMAIN st.q}
              \union {[op |-> "insert", i |-> i, v |-> st.q[j], own |-> j] : i \in 0 .. Len(st.q) + 1, j \in DOMAIN st.q}
              \union {[op |-> "pushf", v |-> v, emp |-> e] : v \in Vals, e \in BOOLEAN}
              \union {[op |-> "insert", i |-> i, v |-> v] : i \in 0 .. Len(st.q) + 1, v \in Vals}
              \union (IF NotEmpty THEN {[op |-> "popb", keep |-> k] : k \in Keeps(st.q[Len(st.q)])}
                                        \union {[op |-> "popf", keep |-> k] : k \in Keeps(Head(st.q))}
                                        \union UNION {{[op |-> "remove", i |-> i, keep |-> k] : k \in Keeps(st.q[Min(i + 1, Len(st.q))])} : i \in 0 .. Len(st.q)}
                                        \union {[op |-> "set", i |-> i, v |-> v] : i \in 0 .. Len(st.q) - 1, v \in Vals}
                      ELSE {})
              \union {[op |-> "hold", v |-> v] : v \in {w \in IF Own THEN Vals ELSE {} : Count(st, w) > 0 /\ st.held[w] < MaxHeld}}
              \union {[op |-> "unhold", v |-> v] : v \in {w \in IF Own THEN Vals ELSE {} : st.held[w] > 0}}
              \union (IF Own THEN News ELSE {})

--------------------------------------------------------------------------------
TypeOK == Len(st.q) <= st.cap /\ (st.live => st.off + Len(st.q) <= st.cap) /\ st.off >= 0
\* each object is referenced exactly from where it logically is, whatever happened
Remaining == [][ (obs'.op.op \in {"pushb", "pushf", "insert", "popb", "popf", "remove"} /\ st.held = <<>>) =>
     LET d == Len(st'.q) - Len(st.q) IN
     CASE d = 1 -> \E i \in 0 .. Len(st.q) : st'.q = Keep(st.q, i) \o <<obs'.op.v>> \o Drop(st.q, i)
       [] d = -1 -> \E i \in 0 .. Len(st'.q) : st.q = Keep(st'.q, i) \o <<obs'.r.res>> \o Drop(st'.q, i)
       [] d = 0 -> st'.q = st.q /\ obs'.op.op \in {"pushb", "pushf", "insert"} /\ Len(st.q) = st.cap ]_vars
FreedIffUnreferenced == \A v \in DOMAIN st.held : (Counts(st)[v] = 0) = (Occ(st.q, v) = 0 /\ st.held[v] = 0)
Conserved == [][ obs'.op.op \in {"popb", "popf", "remove"} =>
     \A v \in DOMAIN st.held : Count(st', v) = Count(st, v) - (IF v = obs'.r.res /\ ~obs'.op.keep THEN 1 ELSE 0) ]_vars
================================================================================
