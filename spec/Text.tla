---------------------------------- MODULE Text ----------------------------------
(* String helpers (core::utils) and StaticString. Texts are sequences of characters; *)
(* "~" stands for the null character, "F" "N" "R" "T" "V" for \f \n \r \t \v,          *)
(* "H" "I" for the bytes 0xE4 and 0xA0.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Alphabet, MaxLen, Needles, Delims, Numbers, Lengths,
          Dbg      \* a debug build, which reports a size beyond the capacity by an assertion
VARIABLES st, obs
vars == <<st, obs>>

Blank == {" ", "F", "N", "R", "T", "V"}
In(c, d) == \E i \in 1..Len(d) : d[i] = c
Stripped(c, op) == IF op.dflt THEN c \in Blank ELSE In(c, op.d)
RECURSIVE LStrip(_, _), RStrip(_, _), Find(_, _, _)
LStrip(s, op) == IF s = <<>> THEN s ELSE IF Stripped(s[1], op) THEN LStrip(Tail(s), op) ELSE s
RStrip(s, op) == IF s = <<>> THEN s ELSE IF Stripped(s[Len(s)], op) THEN RStrip(SubSeq(s, 1, Len(s) - 1), op) ELSE s
Starts(s, n) == Len(n) <= Len(s) /\ SubSeq(s, 1, Len(n)) = n
Ends(s, n) == Len(n) <= Len(s) /\ SubSeq(s, Len(s) - Len(n) + 1, Len(s)) = n
Find(s, d, i) == IF i > Len(s) THEN -1 ELSE IF In(s[i], d) THEN i - 1 ELSE Find(s, d, i + 1)

\* a number: blanks, a sign, digits with at most one point among them, and nothing else; in thousandths
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digit[i] = c
Value(c) == (CHOOSE i \in 1..10 : Digit[i] = c) - 1
Unsigned(s) == /\ \E i \in 1..Len(s) : IsDigit(s[i])
               /\ \A i \in 1..Len(s) : IsDigit(s[i]) \/ s[i] = "."
               /\ Cardinality({i \in 1..Len(s) : s[i] = "."}) <= 1
Point(s) == IF \E i \in 1..Len(s) : s[i] = "." THEN CHOOSE i \in 1..Len(s) : s[i] = "." ELSE Len(s) + 1
Pow == <<100, 10, 1>>
RECURSIVE Whole(_, _), Frac(_, _)
Whole(s, n) == IF n = 0 THEN 0 ELSE 10 * Whole(s, n - 1) + Value(s[n])
Frac(s, i) == IF i > Len(s) THEN 0 ELSE Value(s[i]) * Pow[i - Point(s)] + Frac(s, i + 1)
Number(s) == LET t == LStrip(s, [dflt |-> TRUE])
                 signed == t # <<>> /\ t[1] \in {"+", "-"}
                 u == IF signed THEN Tail(t) ELSE t
                 v == 1000 * Whole(u, Point(u) - 1) + Frac(u, Point(u) + 1) IN
             IF ~Unsigned(u) THEN 0 ELSE IF signed /\ t[1] = "-" THEN -v ELSE v

Init == st = [live |-> FALSE, n |-> 0, t |-> <<>>] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]
Pure(op, r) == st' = st /\ obs' = [op |-> op, r |-> r]

(* helpers on views: stateless *)
Lstrip(op) == Pure(op, [text |-> LStrip(op.t, op), off |-> Len(op.t) - Len(LStrip(op.t, op))])
Rstrip(op) == Pure(op, [text |-> RStrip(op.t, op), off |-> 0])
Search(op) == Pure(op, [starts |-> Starts(op.t, op.d), ends |-> Ends(op.t, op.d), find |-> Find(op.t, op.d, 1)])
ToFloat(op) == Pure(op, [milli |-> Number(op.t)])

(* the static string: n characters fit without a new allocation; t is what it holds *)
RECURSIVE UpTo(_, _)
UpTo(s, i) == IF i > Len(s) \/ s[i] = "~" THEN SubSeq(s, 1, i - 1) ELSE UpTo(s, i + 1)
Show(op, s, full) == st' = s /\ obs' = [op |-> op, r |-> [text |-> s.t, c |-> UpTo(s.t, 1), size |-> Len(s.t), stable |-> TRUE, full |-> full] @@
                                                   (IF Dbg THEN [asserted |-> op.op = "over"] ELSE <<>>)]
Pad(s, n) == IF n <= Len(s) THEN SubSeq(s, 1, n) ELSE s \o [i \in 1..(n - Len(s)) |-> "~"]
New(op) == Show(op, [live |-> TRUE, n |-> op.n, t |-> <<>>], TRUE)
Write(op) == Len(op.t) <= st.n /\ Show(op, [st EXCEPT !.t = IF op.t = <<>> THEN @ ELSE op.t], FALSE)
Size(op) == op.k <= st.n /\ Show(op, [st EXCEPT !.t = Pad(@, op.k)], FALSE)
\* asked for more than there is it becomes full, no more; then it is set back
Over(op) == Show(op, st, TRUE)
SLstrip(op) == Show(op, [st EXCEPT !.t = LStrip(@, op)], FALSE)
SRstrip(op) == Show(op, [st EXCEPT !.t = RStrip(@, op)], FALSE)
SSearch(op) == Pure(op, [starts |-> Starts(st.t, op.d), ends |-> Ends(st.t, op.d)])

Step(op) == CASE op.op = "lstrip" -> Lstrip(op)
              [] op.op = "rstrip" -> Rstrip(op)
              [] op.op = "search" -> Search(op)
              [] op.op = "float" -> ToFloat(op)
              [] op.op = "new" -> New(op)
              [] op.op = "write" -> st.live /\ Write(op)
              [] op.op = "size" -> st.live /\ Size(op)
              [] op.op = "over" -> st.live /\ Over(op)
              [] op.op = "slstrip" -> st.live /\ SLstrip(op)
              [] op.op = "srstrip" -> st.live /\ SRstrip(op)
              [] op.op = "ssearch" -> st.live /\ SSearch(op)
Texts(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
MCOps ==
    IF Lengths = {} THEN
        UNION {{[op |-> "lstrip", t |-> t, d |-> d, dflt |-> FALSE], [op |-> "rstrip", t |-> t, d |-> d, dflt |-> FALSE]} : t \in Texts(MaxLen), d \in Delims}
        \union UNION {{[op |-> "lstrip", t |-> t, d |-> <<>>, dflt |-> TRUE], [op |-> "rstrip", t |-> t, d |-> <<>>, dflt |-> TRUE]} : t \in Texts(MaxLen)}
        \union {[op |-> "search", t |-> t, d |-> d] : t \in Texts(MaxLen), d \in Needles}
        \union {[op |-> "float", t |-> t] : t \in Numbers}
    ELSE IF ~st.live THEN {[op |-> "new", n |-> n] : n \in Lengths}
    ELSE {[op |-> "write", t |-> t] : t \in Texts(IF st.n < MaxLen THEN st.n ELSE MaxLen)}
         \union {[op |-> "size", k |-> k] : k \in 0..(IF st.n < MaxLen THEN st.n ELSE MaxLen)} \union {[op |-> "over"]}
         \union UNION {{[op |-> "slstrip", d |-> d, dflt |-> FALSE], [op |-> "srstrip", d |-> d, dflt |-> FALSE]} : d \in Delims}
         \union {[op |-> "slstrip", d |-> <<>>, dflt |-> TRUE], [op |-> "srstrip", d |-> <<>>, dflt |-> TRUE]}
         \union {[op |-> "ssearch", d |-> d] : d \in Needles}
--------------------------------------------------------------------------------
TypeOK == st.live \in BOOLEAN
Fits == Len(st.t) <= st.n
\* what is left starts (ends) with no delimiter and is a suffix (prefix) of what was
Maximal == /\ obs.op.op = "lstrip" => (obs.r.text = <<>> \/ ~Stripped(obs.r.text[1], obs.op)) /\ Ends(obs.op.t, obs.r.text)
           /\ obs.op.op = "rstrip" => (obs.r.text = <<>> \/ ~Stripped(obs.r.text[Len(obs.r.text)], obs.op)) /\ Starts(obs.op.t, obs.r.text)
Stripping == [][ obs'.op.op \in {"slstrip", "srstrip"} => IF obs'.op.op = "slstrip" THEN Ends(st.t, st'.t) ELSE Starts(st.t, st'.t) ]_vars
================================================================================
