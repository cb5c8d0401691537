---------------------------------- MODULE TimeConv ----------------------------------
(* Conversion between the integer time units 1..6: us ms s m h d.                    *)
EXTENDS BigInt
F == <<1000, 1000, 60, 60, 24>>                    \* units of i in one of i + 1
Max63 == <<5807, 5477, 368, 3372, 922>>        \* 2^63 - 1
Fits(x) == MCmp(x.m, Max63) <= 0
RECURSIVE Finer(_, _, _)
Finer(m, from, to) == IF from = to THEN m ELSE Finer(MMulS(m, F[from - 1]), from - 1, to)
RECURSIVE Coarser(_, _, _)
Coarser(m, from, to) == IF from = to THEN m ELSE Coarser(MDivS(m, F[from]), from + 1, to)
\* finer: exactly; coarser: to the nearest, halves away from zero
Conv(x, from, to) == IF to <= from THEN Mk(x.n, Finer(x.m, from, to))
                     ELSE Mk(x.n, MDivS(Coarser(MAdd(MAdd(x.m, x.m), Finer(<<1>>, to, from)), from, to), 2))

================================================================================
