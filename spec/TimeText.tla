---------------------------------- MODULE TimeText ----------------------------------
(* Durations as text: core::utils::repr and parse_time. Texts are sequences of        *)
(* characters, durations a unit 1..6 (us ms s m h d) and an exact value.              *)
EXTENDS TimeConv, TLC
CONSTANTS Durations, Alphabet, MaxLen, Words
VARIABLES st, obs
vars == <<st, obs>>

Name == <<<<"u", "s">>, <<"m", "s">>, <<"s">>, <<"m">>, <<"h">>, <<"d">>>>
Below == <<1000, 1000, 900, 1440, 24>>      \* the unit is used for rounded values below this
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digit[i] = c
Value(c) == (CHOOSE i \in 1..10 : Digit[i] = c) - 1

\* printing
UnitFor(u, v) == LET Ok(w) == w = 6 \/ (w < 6 /\ Cmp(Conv(v, u, w), Of(Below[w])) < 0) IN
                 CHOOSE w \in 1..6 : Ok(w) /\ \A x \in 1..(w - 1) : ~Ok(x)
RECURSIVE Digits(_)
Digits(m) == IF m = <<>> THEN <<>> ELSE Digits(MDivS(m, 10) ) \o <<Digit[(m[1] % 10) + 1]>>
Decimal(x) == IF x.m = <<>> THEN <<"0">> ELSE Digits(Trim(x.m))
\* reading
RECURSIVE Run(_, _)
Run(s, i) == IF i > Len(s) THEN i - 1 ELSE IF IsDigit(s[i]) THEN Run(s, i + 1) ELSE i - 1      \* length of the run of digits
RECURSIVE Number(_, _)
Number(s, n) == IF n = 0 THEN <<>> ELSE MAdd(MMulS(Number(s, n - 1), 10), <<Value(s[n])>>)
Nothing == [ok |-> FALSE, u |-> 0, v |-> Zero]
Read(s) == LET n == Run(s, 1)
               rest == SubSeq(s, n + 1, Len(s))
               us == {w \in 1..6 : Name[w] = rest}
               x == Mk(FALSE, Number(s, n)) IN
           IF n = 0 \/ us = {} THEN Nothing ELSE IF ~Fits(x) THEN Nothing ELSE [ok |-> TRUE, u |-> CHOOSE w \in us : TRUE, v |-> x]

Init == st = [n |-> 0] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, r) == st' = st /\ obs' = [op |-> op, r |-> r]
Repr(op) == LET w == UnitFor(op.u, op.v)
                t == Decimal(Conv(op.v, op.u, w)) \o Name[w] IN
            Fits(Conv(op.v, op.u, 1)) /\ ~op.v.n /\ Out(op, [text |-> t, back |-> Read(t)])
Parse(op) == Out(op, [back |-> Read(op.text)])
Step(op) == CASE op.op = "repr" -> Repr(op)
              [] op.op = "parse" -> Parse(op)
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
MCOps == {o \in {[op |-> "repr", u |-> d[1], v |-> d[2]] : d \in Durations} : Fits(Conv(o.v, o.u, 1))}
         \union {[op |-> "parse", text |-> t] : t \in Texts \union Words}
--------------------------------------------------------------------------------
TypeOK == st.n = 0
\* what is printed is read back as the same unit and value, and is the duration to that unit's nearest
RoundTrip == obs.op.op = "repr" => LET w == UnitFor(obs.op.u, obs.op.v) IN obs.r.back = [ok |-> TRUE, u |-> w, v |-> Conv(obs.op.v, obs.op.u, w)]
\* anything read starts with a digit and ends with a unit
Sound == (obs.op.op = "parse" /\ obs.r.back.ok) => IsDigit(obs.op.text[1]) /\ obs.op.text[Len(obs.op.text)] \in {"s", "m", "h", "d"}
================================================================================
