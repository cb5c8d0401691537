--------------------------------- MODULE Helpers ---------------------------------
(* Small value types: a point of two or three coordinates, a tuple, joined literals   *)
(* and lists of types without duplicates.                                             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Coords, Scalars, Parts, Types, Firsts, Seconds, Peak, Depth
VARIABLES st, obs
vars == <<st, obs>>

None == [m |-> "none", p |-> <<>>, q |-> <<>>, n |-> 0]
Init == st = None /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
\* whole numbers are divided towards zero, the remainder has the sign of what is divided
Quo(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))
Rem(a, b) == a - b * Quo(a, b)
Map(p, F(_)) == [i \in DOMAIN p |-> F(p[i])]
RECURSIVE Sum(_)
Sum(p) == IF p = <<>> THEN 0 ELSE Head(p) + Sum(Tail(p))
Sq(p) == Sum([i \in DOMAIN p |-> p[i] * p[i]])
RECURSIVE Root(_, _, _)
Root(n, b, r) == IF b = 0 THEN r ELSE Root(n, b \div 2, IF r + b <= 46340 /\ (r + b) * (r + b) <= n THEN r + b ELSE r)
Mag(p) == Root(Sq(p), 32768, 0)
Perfect(p) == Mag(p) * Mag(p) = Sq(p)

\* how: the kind of number and of operation (operator, or a member that changes the point)
PointOut(op, p, res) ==
    /\ \A i \in DOMAIN p : Abs(p[i]) <= Peak
    /\ st' = [m |-> "p", p |-> p, q |-> <<>>, n |-> IF op.op = "point" THEN 1 ELSE IF st.p = p THEN st.n ELSE st.n + 1]
    /\ obs' = [op |-> op, r |-> [p |-> p, res |-> res]]
NoRes == <<>>
In == st.m = "p"
Dim(op) == Len(op.p) = Len(st.p)
Zip(op, F(_, _)) == [i \in DOMAIN st.p |-> F(st.p[i], op.p[i])]
\* the kind of number only matters in that (the quantity of one unit differs too)
Nums == {<<TRUE, "float">>, <<TRUE, "double">>, <<TRUE, "tiny">>, <<TRUE, "huge">>, <<FALSE, "int">>, <<FALSE, "short">>, <<FALSE, "long">>}
\* real coordinates: only exact quotients are specified
PtOk(op) == CASE op.op = "div" -> \A i \in DOMAIN op.p : op.p[i] # 0 /\ (op.real => Rem(st.p[i], op.p[i]) = 0)
              [] op.op = "mod" -> ~op.real /\ \A i \in DOMAIN op.p : op.p[i] # 0
              [] op.op \in {"mag", "normalize"} -> (op.real => Perfect(st.p)) /\ (op.op = "normalize" => Mag(st.p) > 0 /\ ~op.real)
              [] OTHER -> TRUE
Pt(op) == CASE op.op = "add" -> PointOut(op, Zip(op, LAMBDA a, b : a + b), NoRes)
            [] op.op = "sub" -> PointOut(op, Zip(op, LAMBDA a, b : a - b), NoRes)
            [] op.op = "mul" -> PointOut(op, Zip(op, LAMBDA a, b : a * b), NoRes)
            [] op.op = "div" -> PointOut(op, Zip(op, LAMBDA a, b : Quo(a, b)), NoRes)
            [] op.op = "mod" -> PointOut(op, Zip(op, LAMBDA a, b : Rem(a, b)), NoRes)
            [] op.op = "scale" -> PointOut(op, Map(st.p, LAMBDA a : a * op.k), NoRes)
            [] op.op = "eq" -> PointOut(op, st.p, <<IF st.p = op.p THEN 1 ELSE 0, IF st.p # op.p THEN 1 ELSE 0>>)
            [] op.op = "mag" -> PointOut(op, st.p, <<Mag(st.p)>>)
            [] op.op = "normalize" -> PointOut(op, Map(st.p, LAMBDA a : Quo(a, Mag(st.p))), NoRes)
            \* of real coordinates: what it would be, times the length; and the length of it
            [] op.op = "unit" -> PointOut(op, st.p, st.p \o <<Sq(st.p)>>)

Tup(op) == CASE op.op = "tuple" -> TRUE
             [] OTHER -> st.m = "t"
TupOut(op) == LET v == CASE op.op = "tuple" -> <<op.a, op.b>> [] op.op = "first" -> <<op.a, st.q[2]>> [] op.op = "second" -> <<st.q[1], op.b>> [] OTHER -> st.q IN
              /\ st' = [m |-> "t", p |-> <<>>, q |-> v, n |-> 1]
              /\ obs' = [op |-> op, r |-> [a |-> v[1], b |-> v[2]]]

RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Join(Tail(s))
Joined(op) == st' = None /\ obs' = [op |-> op, r |-> [text |-> Join(op.parts), size |-> Len(Join(op.parts)) + 1, ends |-> TRUE]]
\* each type once: of those that are the same the last one stays
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>> ELSE LET t == Once(Tail(s)) IN IF \E i \in DOMAIN t : t[i] = Head(s) THEN t ELSE <<Head(s)>> \o t
Unique(op) == st' = None /\ obs' = [op |-> op, r |-> [types |-> Once(op.types)]]

PtOps == {"add", "sub", "mul", "div", "mod", "scale", "eq", "mag", "normalize", "unit"}
Step(op) == CASE op.op = "point" -> PointOut(op, op.p, NoRes)
              [] op.op \in PtOps -> In /\ ("p" \in DOMAIN op => Dim(op)) /\ PtOk(op) /\ (op.op = "unit" => op.real /\ Sq(st.p) > 0) /\ Pt(op)
              [] op.op \in {"tuple", "first", "second", "tcopy"} -> Tup(op) /\ TupOut(op)
              [] op.op = "concat" -> Joined(op)
              [] op.op = "unique" -> Unique(op)

Pts(n) == [1 .. n -> Coords]
SeqsTo(S, lo, hi) == UNION {[1 .. n -> S] : n \in lo .. hi}
Small(p) == \A i \in DOMAIN p : Abs(p[i]) <= Peak
MCOps == IF st.m = "none" THEN {[op |-> "point", p |-> p] : p \in Pts(2) \union Pts(3)}
             \union {[op |-> "tuple", a |-> a, b |-> b] : a \in Firsts, b \in Seconds}
             \union {[op |-> "concat", parts |-> s] : s \in SeqsTo(Parts, 0, 3)}
             \union {[op |-> "unique", types |-> s] : s \in SeqsTo(Types, 0, 4)}
         ELSE IF st.m = "t" THEN {[op |-> "first", a |-> a] : a \in Firsts} \union {[op |-> "second", b |-> b] : b \in Seconds} \union {[op |-> "tcopy"]}
         ELSE IF st.n > Depth THEN {}
         ELSE {o \in {[op |-> x, p |-> p, real |-> b[1], num |-> b[2], as |-> c] : x \in {"add", "sub"}, p \in Pts(Len(st.p)), b \in Nums, c \in BOOLEAN}
                     \union {[op |-> x, p |-> p, real |-> b[1], num |-> b[2], as |-> c] : x \in {"mul"}, p \in Pts(Len(st.p)), b \in Nums, c \in BOOLEAN}
                     \union {[op |-> x, p |-> p, real |-> b[1], num |-> b[2]] : x \in {"div", "mod", "eq"}, p \in Pts(Len(st.p)) \union {st.p}, b \in Nums}
                     \union {[op |-> "scale", k |-> k, real |-> b[1], num |-> b[2]] : k \in Scalars, b \in Nums}
                     \union {[op |-> x, real |-> b[1], num |-> b[2]] : x \in {"mag", "normalize"}, b \in Nums}
                     \union (IF Sq(st.p) > 0 THEN {[op |-> "unit", real |-> b[1], num |-> b[2]] : b \in {x \in Nums : x[1]}} ELSE {}) : PtOk(o)}
--------------------------------------------------------------------------------
TypeOK == st.m = "p" => Len(st.p) \in {2, 3} /\ Small(st.p)
Kept == [][ obs'.op.op \in {"eq", "mag", "unit"} => st'.p = st.p ]_vars
Inverse == [][ obs'.op.op = "add" => [i \in DOMAIN st.p |-> st'.p[i] - obs'.op.p[i]] = st.p ]_vars
NoDuplicates == [][ obs'.op.op = "unique" => LET t == obs'.r.types IN
                    (\A i, j \in DOMAIN t : i # j => t[i] # t[j]) /\ {t[i] : i \in DOMAIN t} = {obs'.op.types[i] : i \in DOMAIN obs'.op.types} ]_vars
================================================================================
