---------------------------------- MODULE Calendar ----------------------------------
(* DateTime. A day is counted from 1970-01-01 (day 0, a Thursday); the state walks    *)
(* the Gregorian calendar day by day, and every day reached is shown by the real      *)
(* class and made from its fields and texts.                                          *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Years, Span, Secs, Times, Shifts     \* years to start at; days to walk on; seconds of a day; h/m/s to build; fields to carry over
VARIABLES st, obs
vars == <<st, obs>>

MonthName == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
DayName == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysIn(y, m) == IF m = 2 /\ Leap(y) THEN 29 ELSE Days[m]
\* the first of January of year y, from 1970
Jan1(y) == LET p == y - 1 IN 365 * (y - 1970) + (p \div 4 - 492) - (p \div 100 - 19) + (p \div 400 - 4)

Start(y) == [y |-> y, m |-> 1, d |-> 1, wd |-> (Jan1(y) + 4) % 7, yd |-> 0, day |-> Jan1(y)]
NextDay(c) == LET last == c.d = DaysIn(c.y, c.m)
                  year == last /\ c.m = 12 IN
              [y |-> IF year THEN c.y + 1 ELSE c.y, m |-> IF year THEN 1 ELSE IF last THEN c.m + 1 ELSE c.m, d |-> IF last THEN 1 ELSE c.d + 1,
               wd |-> (c.wd + 1) % 7, yd |-> IF year THEN 0 ELSE c.yd + 1, day |-> c.day + 1]
\* any day directly: the year is at most one off when estimated from the mean length of a year
RECURSIVE MonthOf(_, _, _)
MonthOf(y, m, left) == IF left < DaysIn(y, m) THEN <<m, left + 1>> ELSE MonthOf(y, m + 1, left - DaysIn(y, m))
Civil(day) == LET e == 1970 + (day \div 366)
                  RECURSIVE Up(_)
                  Up(y) == IF Jan1(y + 1) <= day THEN Up(y + 1) ELSE y
                  y == IF day >= 0 THEN Up(e) ELSE Up(1970 + (day \div 365) - 1)
                  md == MonthOf(y, 1, day - Jan1(y)) IN
              [y |-> y, m |-> md[1], d |-> md[2], wd |-> (day + 4) % 7, yd |-> day - Jan1(y), day |-> day]
RECURSIVE Before(_, _)
Before(y, m) == IF m = 1 THEN 0 ELSE DaysIn(y, m - 1) + Before(y, m - 1)

Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Clock(s) == [h |-> s \div 3600, mi |-> (s \div 60) % 60, s |-> s % 60]
\* everything a date-time shows: day and second since 1970, the same since 2000, and the default text
Shown(c, s) == LET k == Clock(s) IN
    [y |-> c.y, m |-> c.m, d |-> c.d, h |-> k.h, mi |-> k.mi, s |-> k.s, wd |-> c.wd, yd |-> c.yd, day |-> c.day, sec |-> s, day2k |-> c.day - 10957,
     text |-> DayName[c.wd + 1] \o " " \o MonthName[c.m] \o " " \o Two(c.d) \o " " \o Two(k.h) \o ":" \o Two(k.mi) \o ":" \o Two(k.s) \o " " \o ToString(c.y),
     \* and in a format asked for
     iso |-> ToString(c.y) \o "-" \o Two(c.m) \o "-" \o Two(c.d) \o "T" \o Two(k.h) \o Two(k.mi) \o Two(k.s)]

Init == st = [live |-> FALSE, c |-> Start(1970), left |-> 0] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Out(op, s, r) == st' = s /\ obs' = [op |-> op, r |-> r]
Jump(op) == LET c == Start(op.y) IN Out(op, [live |-> TRUE, c |-> c, left |-> Span], Shown(c, 0))
Tick(op) == LET c == NextDay(st.c) IN Out(op, [st EXCEPT !.c = c, !.left = @ - 1], Shown(c, 0))
At(op) == Out(op, st, Shown(st.c, op.s))
\* made from the fields, or the texts, of now: how says which
Build(op) == Out(op, st, Shown(st.c, 3600 * op.t.h + 60 * op.t.mi + op.t.s))
\* fields outside their range carry over into the next ones
Total(op) == 3600 * op.h + 60 * op.mi + op.s
MonthIndex(op) == 12 * op.y + op.m - 1
CarryDay(op) == LET y == MonthIndex(op) \div 12
                    m == (MonthIndex(op) % 12) + 1 IN Jan1(y) + Before(y, m) + op.d - 1 + Total(op) \div 86400
Carry(op) == Out(op, st, Shown(Civil(CarryDay(op)), Total(op) % 86400))
Any1(op) == Out(op, st, Shown(Civil(op.day), op.s))
Step(op) == CASE op.op = "jump" -> Jump(op)
              [] op.op = "tick" -> st.live /\ Tick(op)
              [] op.op = "at" -> st.live /\ At(op)
              [] op.op \in {"fields", "texts"} -> st.live /\ op.y = st.c.y /\ op.m = st.c.m /\ op.d = st.c.d /\ Build(op)
              [] op.op = "carry" -> Carry(op)
              [] op.op = "any" -> Any1(op)
Now == [y |-> st.c.y, m |-> st.c.m, d |-> st.c.d]
MCOps == IF ~st.live THEN {[op |-> "jump", y |-> y] : y \in Years} \union {[op |-> "any", day |-> Jan1(y) - 1, s |-> 86399] : y \in Years}
         ELSE (IF st.left > 0 THEN {[op |-> "tick"]} ELSE {})
              \union {[op |-> "at", s |-> s] : s \in Secs}
              \union {[op |-> o, y |-> st.c.y, m |-> st.c.m, d |-> st.c.d, t |-> t] : o \in {"fields", "texts"}, t \in Times}
              \union {[op |-> "carry", y |-> st.c.y, m |-> st.c.m + f.m, d |-> st.c.d + f.d, h |-> f.h, mi |-> f.mi, s |-> f.s] : f \in Shifts}
--------------------------------------------------------------------------------
TypeOK == st.c.m \in 1..12 /\ st.c.d \in 1..DaysIn(st.c.y, st.c.m) /\ st.c.yd \in 0..(IF Leap(st.c.y) THEN 365 ELSE 364)
\* walking day by day and computing the day directly agree
Agree == Civil(st.c.day) = st.c
Known == /\ Start(2000).day = 10957
         /\ Start(1900).day = -25567
         /\ Start(2024).wd = 1
Weekly == [][ (obs'.op.op = "tick") => st'.c.wd = (st.c.wd + 1) % 7 /\ st'.c.day = st.c.day + 1 ]_vars
================================================================================
