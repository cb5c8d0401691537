---------------------------------- MODULE Units ----------------------------------
(* Real-valued units: a register holding a quantity in some unit, and a register      *)
(* holding a compound unit (volume per time). Quantities are exact here: integers in  *)
(* the finest unit of the family, or fractions of two of those. The adapter reads the *)
(* floating point value of the code, scaled to the whole number that is expected, and *)
(* reports that number when the value is within the tolerance of it.                  *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Units,     \* sequence of [name, fam, f, e]: one of it is f * 10^e of the base
          Fs,        \* for each unit in use for the register, by index: the factor to the finest of those
          Loads, Others, Scalars, Pairs, Temps, Kinds, CLoads, COthers, Peak, Depth
VARIABLES st, obs
vars == <<st, obs>>

None == [m |-> "none", i |-> 0, v |-> 0, ex |-> FALSE, p |-> 0, q |-> 1, n |-> 0]
Init == st = None /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Divides(d, x) == d # 0 /\ Abs(x) % Abs(d) = 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Quo(a, b) == IF b = 0 THEN 0 ELSE Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
Cmps(c) == <<c = 0, c # 0, c < 0, c > 0, c <= 0, c >= 0>>
Bits(c) == [i \in 1 .. 6 |-> IF Cmps(c)[i] THEN 1 ELSE 0]

(* ---- pairs of units of one family: conversion and comparison of single values ---- *)
Same(a, b) == Units[a].fam = Units[b].fam
\* one a is num/den * 10^e of b
Num(a, b) == Units[a].f \div Gcd(Units[a].f, Units[b].f)
Den(a, b) == Units[b].f \div Gcd(Units[a].f, Units[b].f)
Exp(a, b) == Units[a].e - Units[b].e
Pair(op) == /\ Same(op.a, op.b) /\ op.num = Num(op.a, op.b) /\ op.den = Den(op.a, op.b) /\ op.e = Exp(op.a, op.b)
            /\ st' = None /\ obs' = [op |-> op, r |-> [v |-> op.n]]
PairOp(a, b, n, h) == [op |-> "pair", a |-> a, b |-> b, n |-> n, how |-> h, num |-> Num(a, b), den |-> Den(a, b), e |-> Exp(a, b)]
\* n of a against n of it expressed in the finer b, and off from there
Finer(a, b, n) == LET e == Exp(a, b) IN
    e >= 0 /\ e <= 6 /\ Abs(n) <= 16000000 \div Num(a, b) /\ Divides(Den(a, b), n * Num(a, b)) /\ Abs(Quo(n * Num(a, b), Den(a, b))) <= 16000000 \div Pow(10, e)
InFiner(a, b, n) == Quo(n * Num(a, b), Den(a, b)) * Pow(10, Exp(a, b))
PCmp(op) == /\ Same(op.a, op.b) /\ Finer(op.a, op.b, op.n)
            /\ op.k = InFiner(op.a, op.b, op.n) + op.off
            /\ Abs(op.k) <= 16000000
            /\ (Abs(op.k) >= 200000 => Abs(op.off) # 1)
            /\ st' = None /\ obs' = [op |-> op, r |-> [ab |-> Bits(-(Sgn(op.off))), ba |-> Bits(Sgn(op.off))]]
Temp(op) == /\ op.hundred = (IF op.to = "kelvin" THEN 25 * op.n + 27315 ELSE IF op.to = "celsius" THEN 25 * op.n - 27315 ELSE 25 * op.n)
            /\ st' = None /\ obs' = [op |-> op, r |-> [v |-> op.hundred]]
TempOp(n, t) == [op |-> "temp", n |-> n, to |-> t,
                 hundred |-> IF t = "kelvin" THEN 25 * n + 27315 ELSE IF t = "celsius" THEN 25 * n - 27315 ELSE 25 * n]

(* ---- a register: v of the finest unit, kept in unit Ladder[i] ---- *)
F(i) == Fs[i]
Reg(op, i, v, ex, res) ==
    /\ Abs(v) <= Peak
    /\ op.f = F(i)
    /\ st' = [m |-> "u", i |-> i, v |-> v, ex |-> ex, p |-> 0, q |-> 1,
              n |-> IF op.op = "load" THEN 1 ELSE IF st.m = "u" /\ st.i = i /\ st.v = v THEN st.n ELSE st.n + 1]
    /\ obs' = [op |-> op, r |-> [v |-> v, neg |-> v < 0, res |-> res]]
W(op) == op.n * F(op.i)
Fits(a, b) == b = 0 \/ Abs(a) <= 2000000000 \div Abs(b)
Times(a, b) == IF Fits(a, b) THEN a * b ELSE 0
In == st.m = "u"
Whole(v) == Divides(F(st.i), v)
\* the result of an operation on the register: [ok, v, ex]
Res(op) == CASE op.op = "add" -> [ok |-> TRUE, v |-> st.v + W(op), ex |-> st.ex /\ Whole(W(op))]
             [] op.op = "sub" -> [ok |-> TRUE, v |-> st.v - W(op), ex |-> st.ex /\ Whole(W(op))]
             [] op.op = "neg" -> [ok |-> TRUE, v |-> -st.v, ex |-> st.ex]
             [] op.op = "mul" -> [ok |-> Fits(st.v, op.k), v |-> Times(st.v, op.k), ex |-> st.ex]
             [] op.op = "div" -> [ok |-> op.k # 0 /\ Divides(op.k, st.v), v |-> Quo(st.v, op.k), ex |-> st.ex /\ Whole(Quo(st.v, op.k))]
             [] op.op = "mulu" -> [ok |-> Fits(st.v, W(op)) /\ Divides(F(st.i), Times(st.v, W(op))),
                                   v |-> Quo(Times(st.v, W(op)), F(st.i)), ex |-> FALSE]
             [] op.op = "divu" -> [ok |-> W(op) # 0 /\ Fits(st.v, F(st.i)) /\ Divides(W(op), Times(st.v, F(st.i))),
                                   v |-> Quo(Times(st.v, F(st.i)), W(op)), ex |-> FALSE]
Bin == {"add", "sub", "neg", "mul", "div", "mulu", "divu"}
CmpOk(w) == st.v # w \/ (st.ex /\ Whole(w))

(* ---- a compound: p/q of the finest numerator per finest denominator, kept in kind i = [fn, fd] ---- *)
Cmp(op, i, p, q, ex, extra) ==
    LET g == Gcd(Abs(p), Abs(q)) s == IF q < 0 THEN -1 ELSE 1 P == s * (Abs(p) \div g) * Sgn(p) Q == Abs(q) \div g
        P2 == P * Kinds[i].fd Q2 == Q * Kinds[i].fn g2 == Gcd(Abs(P2), Q2) IN
    /\ Abs(P) <= Peak /\ Q <= Peak \div Kinds[i].fn /\ Abs(P2) <= 4 * Peak
    /\ op.mul = Q2 \div g2
    /\ st' = [m |-> "c", i |-> i, v |-> 0, ex |-> ex, p |-> P, q |-> Q,
              n |-> IF op.op = "cload" THEN 1 ELSE IF st.m = "c" /\ st.i = i /\ st.p = P /\ st.q = Q THEN st.n ELSE st.n + 1]
    /\ obs' = [op |-> op, r |-> [raw |-> Sgn(P2) * (Abs(P2) \div g2), kept |-> TRUE] @@ extra]
CIn == st.m = "c"
CRes(op) == CASE op.op = "cadd" -> <<st.p * op.q + op.p * st.q, st.q * op.q>>
              [] op.op = "csub" -> <<st.p * op.q - op.p * st.q, st.q * op.q>>
              [] op.op = "cneg" -> <<-st.p, st.q>>
              [] op.op = "cmul" -> <<st.p * op.k, st.q>>
              [] op.op = "cdiv" -> <<st.p, st.q * op.k>>
              [] OTHER -> <<st.p, st.q>>
CBin == {"cadd", "csub", "cneg", "cmul", "cdiv", "simplify"}
None3 == [res |-> <<>>]
\* a mul that makes the raw value whole
Mul(i, p, q) == LET g == Gcd(Abs(p), Abs(q)) P2 == (Abs(p) \div g) * Kinds[i].fd Q2 == (Abs(q) \div g) * Kinds[i].fn IN Q2 \div Gcd(P2, Q2)
CExact(i, p, q) == Divides(Kinds[i].fn, p) /\ Divides(Kinds[i].fd, q)
Cross(op) == st.p * op.q - op.p * st.q      \* op.q > 0
CCmpOk(op) == \/ Cross(op) # 0
              \/ st.ex /\ CExact(st.i, op.p, op.q)

Step(op) == CASE op.op = "pair" -> Pair(op)
              [] op.op = "pcmp" -> PCmp(op)
              [] op.op = "temp" -> Temp(op)
              [] op.op = "load" -> Reg(op, op.i, W(op), TRUE, <<>>)
              [] op.op = "conv" -> In /\ Reg(op, op.i, st.v, st.ex /\ Divides(F(op.i), st.v), <<>>)
              [] op.op \in Bin -> In /\ LET r == Res(op) IN r.ok /\ Reg(op, st.i, r.v, r.ex, <<>>)
              [] op.op = "cmp" -> In /\ CmpOk(W(op)) /\ Reg(op, st.i, st.v, st.ex, Bits(Sgn(st.v - W(op))))
              [] op.op = "zero" -> In /\ Reg(op, st.i, st.v, st.ex, <<1>>)     \* divided by nothing: an exception is thrown
              [] op.op = "cload" -> op.q > 0 /\ Cmp(op, op.i, op.p, op.q, CExact(op.i, op.p, op.q) /\ (op.ni = 1 \/ Divides(1000, op.p)) /\ (op.di = 1 \/ Divides(60, op.q)), [n |-> op.p, d |-> op.q])
              [] op.op = "cconv" -> CIn /\ Cmp(op, op.i, st.p, st.q, FALSE, None3)
              [] op.op \in CBin -> CIn /\ LET r == CRes(op) IN Cmp(op, st.i, r[1], r[2], FALSE, None3)
              [] op.op = "ccmp" -> CIn /\ op.q > 0 /\ CCmpOk(op) /\ Cmp(op, st.i, st.p, st.q, st.ex, [res |-> Bits(Sgn(Cross(op)))])
              [] op.op = "czero" -> CIn /\ Cmp(op, st.i, st.p, st.q, st.ex, [res |-> <<1>>])
              \* numbers that have the greatest common divisor d in their own unit
              [] op.op = "lowest" -> /\ op.d > 0 /\ st' = None
                                     /\ obs' = [op |-> op, r |-> LET g == Gcd(Abs(op.x), Abs(op.y)) IN
                                                                 [n |-> IF g = 0 THEN 0 ELSE Quo(op.x, g), d |-> IF g = 0 THEN 0 ELSE Quo(op.y, g)]]

Ix == DOMAIN Fs
KIx == DOMAIN Kinds
N == DOMAIN Units
Kin == {x \in N \X N : Same(x[1], x[2])}
MakePairs == {PairOp(x[1], x[2], n, h) : x \in Kin, n \in Pairs, h \in {"make", "assign", "move"}}
Finers == {y \in {<<x[1], x[2], n>> : x \in Kin, n \in Pairs} : Finer(y[1], y[2], y[3])}
MCOps == IF st.m = "none" THEN
            MakePairs
            \union {[op |-> "pcmp", a |-> x[1][1], b |-> x[1][2], n |-> x[1][3], off |-> x[2], k |-> InFiner(x[1][1], x[1][2], x[1][3]) + x[2]] :
                    x \in {y \in Finers \X {-2, -1, 0, 1, 2} : LET k == Abs(InFiner(y[1][1], y[1][2], y[1][3])) IN
                                                             (Abs(y[2]) # 1 \/ k < 199999) /\ (Abs(y[2]) # 2 \/ k < 400000)}}
            \union {TempOp(n, t) : n \in Temps, t \in {"kelvin", "celsius", "kelvin same", "celsius same"}}
            \union {[op |-> "lowest", x |-> x, y |-> y, d |-> d, int |-> b] : x \in Temps, y \in Temps, d \in {1}, b \in BOOLEAN}
            \union {[op |-> "load", i |-> i, n |-> n, f |-> F(i)] : i \in Ix, n \in Loads}
            \union {[op |-> "cload", i |-> x[1], p |-> x[2][1], q |-> x[2][2], ni |-> x[3], di |-> x[4], mul |-> Mul(x[1], x[2][1], x[2][2])] :
                    x \in KIx \X CLoads \X {1, 2} \X {1, 2}}
         ELSE IF st.n > Depth THEN {}
         ELSE IF In THEN
            {[op |-> "conv", i |-> i, how |-> h, f |-> F(i)] : i \in Ix, h \in {"make", "assign", "move"}}
            \union {o \in {[op |-> x[1], i |-> x[2], n |-> x[3], as |-> x[4], f |-> F(st.i)] : x \in {"add", "sub"} \X Ix \X Others \X BOOLEAN}
                          \union {[op |-> x[1], i |-> x[2], n |-> x[3], f |-> F(st.i)] : x \in {"mulu", "divu"} \X Ix \X Others}
                          \union {[op |-> x[1], k |-> x[2], as |-> x[3], f |-> F(st.i)] : x \in {"mul", "div"} \X Scalars \X BOOLEAN}
                          \union {[op |-> "neg", f |-> F(st.i)]} : LET r == Res(o) IN r.ok /\ Abs(r.v) <= Peak}
            \union {o \in {[op |-> "cmp", i |-> i, n |-> n, f |-> F(st.i)] : i \in Ix, n \in Others \union Loads} : CmpOk(W(o))}
            \union {[op |-> "zero", as |-> h, f |-> F(st.i)] : h \in {"scalar", "assign", "unit"}}
         ELSE
            {o \in {[op |-> "cconv", i |-> i, how |-> h, mul |-> Mul(i, st.p, st.q)] : i \in KIx, h \in {"make", "assign"}}
                   \union {[op |-> "czero", how |-> h, mul |-> Mul(st.i, st.p, st.q)] : h \in {"raw", "scalar", "assign"}}
                   \union {[op |-> "ccmp", i |-> i, p |-> x[1], q |-> x[2], mul |-> Mul(st.i, st.p, st.q)] : i \in KIx, x \in COthers \union CLoads}
                   : o.op # "ccmp" \/ CCmpOk(o)}
            \union {LET r == CRes(o) IN [o EXCEPT !.mul = Mul(st.i, r[1], r[2])] :
                    o \in {[op |-> y[1], i |-> y[2], p |-> y[3][1], q |-> y[3][2], as |-> y[4], mul |-> 0] : y \in {"cadd", "csub"} \X KIx \X COthers \X BOOLEAN}
                          \union {[op |-> y[1], k |-> y[2], as |-> y[3], mul |-> 0] : y \in {"cmul", "cdiv"} \X Scalars \X BOOLEAN}
                          \union {[op |-> "cneg", mul |-> 0]}
                          \union {[op |-> "simplify", by |-> b, mul |-> 0] : b \in {1, 10, 1000}}}
--------------------------------------------------------------------------------
TypeOK == Abs(st.v) <= Peak /\ st.q > 0 /\ Gcd(Abs(st.p), st.q) = 1
\* a conversion changes the unit and never the quantity, and neither does simplifying
Kept == [][ (obs'.op.op \in {"conv", "cconv", "simplify"}) => (st'.v = st.v /\ st'.p = st.p /\ st'.q = st.q) ]_vars
OneOf(r) == r[1] + r[3] + r[4] = 1 /\ r[2] = 1 - r[1] /\ r[5] = r[1] + r[3] /\ r[6] = r[1] + r[4]
Total == [][ (obs'.op.op \in {"cmp", "ccmp"}) => OneOf(obs'.r.res) ]_vars
Undo == [][ obs'.op.op = "add" => st'.v - W(obs'.op) = st.v ]_vars
================================================================================
