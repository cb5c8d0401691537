---------------------------------- MODULE Result ----------------------------------
(* spn::structure::Result: a few results of one kind (a combination of value, error   *)
(* and intermediary types), each empty, a success, a failure or an intermediary with  *)
(* a payload 0..P-1. Whatever the types, only that matters.                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Kinds, Slots, P
VARIABLES st, obs
vars == <<st, obs>>

Empty == [t |-> "none", v |-> 0]
Init == st = [live |-> FALSE, kind |-> "none", rs |-> <<>>] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, rs, ret) == st' = [st EXCEPT !.rs = rs] /\ obs' = [op |-> op, r |-> [ret |-> ret, rs |-> rs]]
No == [calls |-> 0, arg |-> 0, t |-> "none", v |-> 0]
Ret(calls, arg, t, v) == [calls |-> calls, arg |-> arg, t |-> t, v |-> v]
Next1(v) == (v + 1) % P
Set(i, t, v) == [st.rs EXCEPT ![i] = [t |-> t, v |-> v]]

New(op) == LET rs == [i \in 1..op.n |-> Empty] IN
           st' = [live |-> TRUE, kind |-> op.kind, rs |-> rs] /\ obs' = [op |-> op, r |-> [ret |-> No, rs |-> rs]]
\* made as a value, a failure, an intermediary or nothing; how only says which way of writing that is used
Make(op) == Out(op, Set(op.i, op.t, IF op.t = "none" THEN 0 ELSE op.v), No)
Copy(op) == Out(op, [st.rs EXCEPT ![op.i] = st.rs[op.j]], No)
\* what was moved from holds nothing to rely on: the adapter makes it empty
Move(op) == Out(op, IF op.i = op.j THEN st.rs ELSE [st.rs EXCEPT ![op.i] = st.rs[op.j], ![op.j] = Empty], No)
\* the payload is taken out
Unwrap(op) == LET s == st.rs[op.i] IN
              /\ s.t = op.t
              /\ Out(op, Set(op.i, "none", 0), Ret(0, 0, s.t, s.v))
\* combinators: for: the state they are for; made: what the function makes of the payload
For(k) == CASE k = "map" -> "ok" [] k = "and_then" -> "ok" [] k = "map_error" -> "fail" [] k = "or_else" -> "fail"
            [] k = "map_intermediary" -> "mid" [] k = "chain" -> "mid" [] k = "map_type" -> "ok"
Makes(k) == CASE k \in {"map", "map_type"} -> {"ok"} [] k = "map_error" -> {"fail"} [] k = "map_intermediary" -> {"mid"}
              [] OTHER -> {"none", "ok", "fail", "mid"}
Combine(op) == LET s == st.rs[op.i]
                   hit == s.t = For(op.k)
                   to == IF hit THEN [t |-> op.to, v |-> IF op.to = "none" THEN 0 ELSE Next1(s.v)] ELSE s
                   \* chain hands out the payload itself: the function may change it in place
                   src == IF hit /\ op.k = "chain" /\ op.mut THEN [s EXCEPT !.v = Next1(Next1(@))] ELSE s
                   ret == Ret(IF hit THEN 1 ELSE 0, IF hit THEN s.v ELSE 0, to.t, to.v) IN
               Out(op, IF op.keep THEN [[st.rs EXCEPT ![op.i] = src] EXCEPT ![op.j] = to] ELSE [st.rs EXCEPT ![op.i] = src], ret)
Match(op) == LET s == st.rs[op.i] IN s.t # "none" /\ Out(op, st.rs, Ret(1, s.v, s.t, s.v))
\* the alternative exactly when there is nothing to give: calls counts the alternatives given
Or(op) == LET s == st.rs[op.i]
              has == s.t = IF op.k = "error_or" THEN "fail" ELSE "ok" IN
          Out(op, st.rs, IF has THEN Ret(0, 0, s.t, s.v) ELSE Ret(IF op.k = "unwrap_or_else" THEN 1 ELSE 0, 0, "alt", op.d))

Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "make" -> st.live /\ Make(op)
              [] op.op = "copy" -> st.live /\ Copy(op)
              [] op.op = "move" -> st.live /\ Move(op)
              [] op.op = "unwrap" -> st.live /\ Unwrap(op)
              [] op.op = "combine" -> st.live /\ Combine(op)
              [] op.op = "match" -> st.live /\ Match(op)
              [] op.op = "or" -> st.live /\ Or(op)
I == 1..Len(st.rs)
V == 0..(P - 1)
Same(k) == k \in {"iii", "sss"}            \* kinds whose value and error types are the same: no shorthand for errors
MCOps ==
    IF ~st.live THEN {[op |-> "new", kind |-> k, n |-> Slots] : k \in Kinds}
    ELSE {[op |-> "make", i |-> i, t |-> "none", how |-> "default", v |-> 0] : i \in I}
         \union {[op |-> "make", i |-> i, t |-> "ok", how |-> h, v |-> v] : i \in I, v \in V, h \in {"lvalue", "const", "temp", "assign", "return"}}
         \union {[op |-> "make", i |-> i, t |-> "fail", how |-> h, v |-> v] : i \in I, v \in V,
                 h \in {"lvalue", "const", "temp"} \union (IF Same(st.kind) THEN {} ELSE {"short-lvalue", "short-const", "short-temp"})}
         \union {[op |-> "make", i |-> i, t |-> "mid", how |-> h, v |-> v] : i \in I, v \in V, h \in {"lvalue", "const", "temp"}}
         \union {[op |-> "copy", i |-> i, j |-> j, how |-> h] : i \in I, j \in I, h \in {"make", "make-const", "make-const-move", "assign", "assign-const", "return"}}
         \union {[op |-> "move", i |-> i, j |-> j, how |-> h] : i \in I, j \in I, h \in {"make", "assign"}}
         \union {[op |-> "unwrap", i |-> i, t |-> st.rs[i].t] : i \in {x \in I : st.rs[x].t # "none"}}
         \union UNION {{[op |-> "combine", k |-> k, i |-> i, j |-> j, to |-> t, mut |-> FALSE, keep |-> k # "map_type"] : i \in I, j \in I, t \in Makes(k)} :
                       k \in {"map", "map_type", "map_error", "map_intermediary", "and_then", "or_else"}}
         \union {[op |-> "combine", k |-> "chain", i |-> i, j |-> j, to |-> t, mut |-> m, keep |-> TRUE] : i \in I, j \in I, t \in Makes("chain"), m \in BOOLEAN}
         \union {[op |-> "match", i |-> i] : i \in {x \in I : st.rs[x].t # "none"}}
         \union {[op |-> "or", k |-> k, i |-> i, d |-> P] : k \in {"value_or", "error_or", "unwrap_or_else"}, i \in I}
--------------------------------------------------------------------------------
TypeOK == \A i \in I : st.rs[i].t \in {"none", "ok", "fail", "mid"} /\ st.rs[i].v \in V /\ (st.rs[i].t = "none" => st.rs[i].v = 0)
\* only what an operation names changes
Frame == [][ st.live => \A i \in I : st'.rs[i] # st.rs[i] => (obs'.op.i = i \/ obs'.op.j = i) ]_vars
CopyKeeps == [][ obs'.op.op = "copy" => st'.rs[obs'.op.i] = st.rs[obs'.op.j] /\ (obs'.op.i # obs'.op.j => st'.rs[obs'.op.j] = st.rs[obs'.op.j]) ]_vars
\* a combinator that is not for the state passes it on, without calling
PassOn == [][ (obs'.op.op = "combine" /\ obs'.op.keep /\ st.rs[obs'.op.i].t # For(obs'.op.k)) => obs'.r.ret.calls = 0 /\ st'.rs[obs'.op.j] = st.rs[obs'.op.i] ]_vars
CallsOnce == [][ obs'.op.op = "combine" => obs'.r.ret.calls = (IF st.rs[obs'.op.i].t = For(obs'.op.k) THEN 1 ELSE 0) ]_vars
================================================================================
