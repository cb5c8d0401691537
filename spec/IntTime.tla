---------------------------------- MODULE IntTime ----------------------------------
(* Integer (kernel) time: one register of unit 1..6 (us ms s m h d) and an exact     *)
(* value. Results outside the 64 bit range are out of scope.                         *)
EXTENDS TimeConv, TLC
CONSTANTS Units, Vals, Others, Scalars, Reals
VARIABLES st, obs
vars == <<st, obs>>

Init == st = [u |-> 0, v |-> Zero, n |-> 0] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, u, v, res) == /\ st' = [u |-> u, v |-> v, n |-> IF op.op = "set" THEN 1 ELSE IF u = st.u /\ v = st.v THEN st.n ELSE st.n + 1]
                      /\ obs' = [op |-> op, r |-> [res |-> res, v |-> v, neg |-> v.n]]
Set(op) == Out(op, op.u, op.v, 0)
To(op) == LET v == Conv(st.v, st.u, op.u) IN Fits(v) /\ Fits(Conv(st.v, st.u, 1)) /\ Out(op, op.u, v, 0)
Right(op) == Conv(op.v, op.u, st.u)
Bin(op, v) == Fits(Right(op)) /\ Fits(v) /\ Out(op, st.u, v, 0)
Trunc(x, k) == Mk(x.n # (k < 0), MDivS(x.m, Abs(k)))
Cmps(c) == <<c = 0, c # 0, c < 0, c > 0, c <= 0, c >= 0>>
Bits(c) == [i \in 1 .. 6 |-> IF Cmps(c)[i] THEN 1 ELSE 0]
\* half: twice the real time; to integer time by rounding up, down or to nearest (halves away from zero)
Half(op) == LET a == Abs(op.half)
                down == op.half \div 2
                v == CASE op.by = "floor" -> down
                       [] op.by = "round" -> IF op.half < 0 THEN -((a + 1) \div 2) ELSE (a + 1) \div 2
                       [] OTHER -> down + (op.half % 2) IN
            Out(op, op.u, Of(v), 0)

Step(op) == CASE op.op = "set" -> Set(op)
              [] op.op = "real" -> Half(op)
              [] op.op = "conv" -> st.u > 0 /\ To(op)
              [] op.op = "add" -> st.u > 0 /\ Bin(op, Add(st.v, Right(op)))
              [] op.op = "sub" -> st.u > 0 /\ Bin(op, Sub(st.v, Right(op)))
              [] op.op = "neg" -> st.u > 0 /\ Out(op, st.u, Neg(st.v), 0)
              [] op.op = "mul" -> st.u > 0 /\ LET v == Mk(st.v.n # (op.k < 0), MMulS(st.v.m, Abs(op.k))) IN Fits(v) /\ Out(op, st.u, v, 0)
              [] op.op = "div" -> st.u > 0 /\ Out(op, st.u, Trunc(st.v, op.k), 0)
              [] op.op = "mulu" -> st.u > 0 /\ Bin(op, Mul(st.v, Right(op)))
              [] op.op = "divu" -> st.u > 0 /\ IsSmall(Right(op)) /\ Right(op).m # <<>>
                                   /\ Bin(op, LET q == Trunc(st.v, Small(Right(op))) IN IF Right(op).n THEN Neg(q) ELSE q)
              [] op.op = "cmp" -> st.u > 0 /\ Fits(Right(op)) /\ Out(op, st.u, st.v, Bits(Cmp(st.v, Right(op))))
              [] op.op = "back" -> st.u > 0 /\ Fits(Conv(st.v, st.u, 1)) /\ op.u <= st.u /\ Out(op, st.u, st.v, 1)

Start == {[op |-> "set", u |-> u, v |-> v] : u \in Units, v \in Vals}
         \union {[op |-> "real", u |-> u, half |-> h, by |-> b] : u \in Units, h \in Reals, b \in {"", "floor", "round"}}
Legal(op) == CASE op.op = "conv" -> Fits(Conv(st.v, st.u, 1))
               [] op.op = "back" -> Fits(Conv(st.v, st.u, 1)) /\ op.u <= st.u
               [] op.op \in {"neg", "div"} -> TRUE
               [] op.op = "mul" -> Fits(Mk(FALSE, MMulS(st.v.m, Abs(op.k))))
               [] op.op = "cmp" -> Fits(Right(op))
               [] op.op = "divu" -> Fits(Right(op)) /\ IsSmall(Right(op)) /\ Right(op).m # <<>>
               [] op.op = "mulu" -> Fits(Right(op)) /\ Fits(Mul(st.v, Right(op)))
               [] OTHER -> Fits(Right(op)) /\ Fits(Add(Mk(FALSE, st.v.m), Mk(FALSE, Right(op).m)))
MCOps == IF st.u = 0 THEN Start ELSE IF st.n > 1 THEN {} ELSE
         {o \in {[op |-> "conv", u |-> u, how |-> h] : u \in Units, h \in {"make", "assign", "move"}}
                \union {[op |-> "back", u |-> u] : u \in Units}
                \union {[op |-> o, u |-> u, v |-> v, as |-> a] : o \in {"add", "sub"}, u \in Units, v \in Others, a \in BOOLEAN}
                \union {[op |-> o, u |-> u, v |-> v] : o \in {"mulu", "divu", "cmp"}, u \in Units, v \in Others}
                \union {[op |-> o, k |-> k, as |-> a] : o \in {"mul", "div"}, k \in Scalars, a \in BOOLEAN}
                \union {[op |-> "neg"]} : Legal(o)}
--------------------------------------------------------------------------------
TypeOK == Fits(st.v)
\* negation and subtraction are inverses of addition; comparison agrees with the sign of the difference
OneOf(r) == r[1] + r[3] + r[4] = 1 /\ r[2] = 1 - r[1] /\ r[5] = r[1] + r[3] /\ r[6] = r[1] + r[4]
Total == [][ obs'.op.op = "cmp" => OneOf(obs'.r.res) ]_vars
Undo == [][ obs'.op.op = "add" => Sub(st'.v, Right(obs'.op)) = st.v ]_vars
\* rounding to a coarser unit is off by at most half of it
Nearest == [][ (obs'.op.op = "conv" /\ obs'.op.u > st.u) =>
               LET d == Sub(MulS(Conv(st'.v, st'.u, st.u), 2), MulS(st.v, 2)) IN MCmp(d.m, Finer(<<1>>, st'.u, st.u)) <= 0 ]_vars
================================================================================
