---------------------------------- MODULE Excs ----------------------------------
(* The machine wide exception handler. Handlers are numbered; where: which of them     *)
(* are alive, and which one is installed (0: none).                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Handlers, Kinds, Msgs,
          Debug   \* whether assertions and expectations are compiled in
VARIABLES st, obs
vars == <<st, obs>>

Init == st = [live |-> FALSE, cur |-> 0, alive |-> {}, swap |-> 0] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Out(op, s, prev, calls, logged) ==
    st' = s /\ obs' = [op |-> op, r |-> [prev |-> prev, calls |-> calls, logged |-> logged, cur |-> s.cur, alive |-> Sorted(s.alive)]]

\* everything released and no handler
New(op) == Out(op, [live |-> TRUE, cur |-> 0, alive |-> {}, swap |-> 0], 0, <<>>, FALSE)
\* the previous one comes back to the caller
Install(op) == Out(op, [st EXCEPT !.cur = op.h, !.alive = IF op.h = 0 THEN @ ELSE @ \union {op.h}], st.cur, <<>>, FALSE)
\* the caller lets go of one that is not installed
Drop(op) == op.h \in st.alive /\ op.h # st.cur /\ Out(op, [st EXCEPT !.alive = @ \ {op.h}, !.swap = IF op.h = @ THEN 0 ELSE @], 0, <<>>, FALSE)
\* installed and released at once: what came back is not kept
Replace(op) == op.h \notin st.alive /\ Out(op, [st EXCEPT !.cur = op.h, !.alive = (@ \ {st.cur}) \union (IF op.h = 0 THEN {} ELSE {op.h}), !.swap = IF @ = st.cur THEN 0 ELSE @], st.cur, <<>>, FALSE)
\* the next throw makes the handler that is called install another one (of the caller's)
Plan(op) == op.h \in st.alive /\ Out(op, [st EXCEPT !.swap = op.h], 0, <<>>, FALSE)
Raise(op, kind, msg) ==
             LET c == st.cur
                 s == IF c # 0 /\ st.swap # 0 /\ st.swap # c THEN [st EXCEPT !.cur = st.swap, !.swap = 0] ELSE st IN
             Out(op, s, 0, IF c = 0 THEN <<>> ELSE <<[h |-> c, kind |-> kind, msg |-> msg]>>, TRUE)
Throw(op) == Raise(op, op.kind, op.msg)
\* an assertion that fails is thrown and an expectation that fails is logged, both naming the condition; without Debug neither is even evaluated
Assertion(op) == IF Debug /\ ~op.holds THEN Raise(op, "assertion", op.msg) ELSE Out(op, st, 0, <<>>, FALSE)
Expect(op) == Out(op, st, 0, <<>>, Debug /\ ~op.holds)
Checked(op) == op.evals = IF Debug THEN 1 ELSE 0
Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "install" -> st.live /\ op.h # st.cur /\ Install(op)
              [] op.op = "drop" -> st.live /\ Drop(op)
              [] op.op = "replace" -> st.live /\ Replace(op)
              [] op.op = "plan" -> st.live /\ Plan(op)
              [] op.op = "throw" -> st.live /\ Throw(op)
              [] op.op = "assert" -> st.live /\ Checked(op) /\ Assertion(op)
              [] op.op = "expect" -> st.live /\ Checked(op) /\ Expect(op)
MCOps == IF ~st.live THEN {[op |-> "new"]}
         ELSE {o \in {[op |-> "install", h |-> h] : h \in Handlers \union {0}} : o.h # st.cur}
              \union {[op |-> "drop", h |-> h] : h \in st.alive \ {st.cur}}
              \union {[op |-> "replace", h |-> h] : h \in (Handlers \union {0}) \ st.alive}
              \union {[op |-> "plan", h |-> h] : h \in st.alive}
              \union {[op |-> o, msg |-> m, holds |-> b, evals |-> IF Debug THEN 1 ELSE 0] : o \in {"assert", "expect"}, m \in {"it_works(n)", "n == 1 || it_works(2)"}, b \in BOOLEAN}
              \union {[op |-> "throw", kind |-> k, msg |-> m, how |-> w] : k \in Kinds, m \in Msgs, w \in {"call", "member", "copy"}}
--------------------------------------------------------------------------------
TypeOK == st.cur \in Handlers \union {0} /\ st.alive \subseteq Handlers
Installed == st.cur # 0 => st.cur \in st.alive
OnceCalled == [][ obs'.op.op = "throw" => obs'.r.calls = (IF st.cur = 0 THEN <<>> ELSE <<[h |-> st.cur, kind |-> obs'.op.kind, msg |-> obs'.op.msg]>>) ]_vars
QuietOtherwise == [][ obs'.op.op \notin {"throw", "assert"} => obs'.r.calls = <<>> ]_vars
AssertThrows == [][ obs'.op.op = "assert" => (obs'.r.calls # <<>>) = (Debug /\ ~obs'.op.holds /\ st.cur # 0) ]_vars
================================================================================
