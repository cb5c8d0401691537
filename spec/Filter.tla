---------------------------------- MODULE Filter ----------------------------------
(* spn::filter::Stack and the filters in it. Values are integers in quarters, so that *)
(* the real (binary) arithmetic is exact; a step that would need a value in between   *)
(* is not taken. A filter: its configuration c, its value v, fresh before any sample  *)
(* or reset, and n: samples in the average (up to K) or consecutive samples out of    *)
(* band (up to one over the limit).                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cfgs,        \* filter configurations
          Slots, Doubles, Samples, Resets, Compose   \* numbers of slots; value type; ...; most filters attached in MC
VARIABLES st, obs
vars == <<st, obs>>

Init == st = [live |-> FALSE, slots |-> 0, fs |-> <<>>] /\ obs = [op |-> [op |-> "init"], r |-> [x |-> 0]]

Min(a, b) == IF a < b THEN a ELSE b
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)

(* the filters *)
Width(c) == c.m * Pow10(c.dec + 1)
\* the preset broad band: mantissa 1, decades 0.01: 10.23 wide, i.e. 40 quarters are in and 41 are out
HalfBand(c) == IF c.preset THEN 40 ELSE Width(c)
Mid(f, v) == IF f.c.rel THEN v + f.c.offset ELSE f.c.offset
InBand(f, s) == LET v == IF f.fresh THEN s ELSE f.v IN Mid(f, v) - HalfBand(f.c) <= s /\ s <= Mid(f, v) + HalfBand(f.c)
Exact(f, s) == CASE f.c.k = "pass" -> TRUE
                 [] f.c.k = "inv" -> f.c.lo <= s /\ s <= f.c.hi
                 [] f.c.k = "map" -> ((Clamp(s, f.c.lo, f.c.hi) - f.c.lo) * (f.c.ohi - f.c.olo)) % (f.c.hi - f.c.lo) = 0
                 [] f.c.k = "ewma" -> IF f.n = 0 THEN TRUE ELSE (s - f.v) % Min(f.n + 1, f.c.K) = 0
                 [] f.c.k = "band" -> TRUE
\* the filter after sample s, and the exceptions it raised
Apply(f, s) ==
    LET g == [f EXCEPT !.fresh = FALSE] IN
    CASE f.c.k = "pass" -> <<[g EXCEPT !.v = s], 0>>
      [] f.c.k = "inv" -> <<[g EXCEPT !.v = f.c.hi - (s - f.c.lo)], 0>>
      [] f.c.k = "map" -> <<[g EXCEPT !.v = f.c.olo + ((Clamp(s, f.c.lo, f.c.hi) - f.c.lo) * (f.c.ohi - f.c.olo)) \div (f.c.hi - f.c.lo)],
                            IF f.c.thr /\ s # Clamp(s, f.c.lo, f.c.hi) THEN 1 ELSE 0>>
      [] f.c.k = "ewma" -> <<IF f.n = 0 THEN [g EXCEPT !.v = s, !.n = 1]
                             ELSE [g EXCEPT !.n = Min(f.n + 1, f.c.K), !.v = f.v + (s - f.v) \div Min(f.n + 1, f.c.K)], 0>>
      [] f.c.k = "band" -> IF InBand(f, s) THEN <<[g EXCEPT !.v = s, !.n = 0], 0>>
                           ELSE LET n == Min(f.n + 1, f.c.limit + 1)
                                    over == n > f.c.limit IN
                                <<[g EXCEPT !.n = n, !.v = IF over \/ f.fresh THEN s ELSE f.v], IF over /\ f.c.thr THEN 1 ELSE 0>>
ResetF(f, v) == [f EXCEPT !.v = v, !.fresh = FALSE, !.n = IF f.c.k = "ewma" THEN 0 ELSE @]

(* the stack: each filter gets its predecessor's output *)
RECURSIVE Through(_, _), ExactAll(_, _)
Through(fs, s) == IF fs = <<>> THEN [fs |-> <<>>, out |-> s, thrown |-> 0]
                  ELSE LET a == Apply(Head(fs), s)
                           t == Through(Tail(fs), a[1].v) IN
                       [fs |-> <<a[1]>> \o t.fs, out |-> t.out, thrown |-> a[2] + t.thrown]
ExactAll(fs, s) == IF fs = <<>> THEN TRUE ELSE IF Exact(Head(fs), s) THEN ExactAll(Tail(fs), Apply(Head(fs), s)[1].v) ELSE FALSE

Shown(f) == IF f.fresh THEN 0 ELSE f.v
Last(fs) == IF fs = <<>> THEN 0 ELSE Shown(fs[Len(fs)])
Out(op, s, ret, thrown) ==
    /\ st' = s
    /\ obs' = [op |-> op, r |-> [ret |-> ret, thrown |-> thrown, out |-> Last(s.fs), slots |-> s.slots, occ |-> Len(s.fs),
                                 ids |-> [i \in 1..Len(s.fs) |-> s.fs[i].id], vals |-> [i \in 1..Len(s.fs) |-> Shown(s.fs[i])]]]

New(op) == Out(op, [live |-> TRUE, slots |-> op.slots, fs |-> <<>>], 0, 0)
Attach(op) == Out(op, [st EXCEPT !.fs = Append(@, [id |-> op.id, c |-> op.c, v |-> 0, n |-> 0, fresh |-> TRUE])], 0, 0)
\* a filter for which there is no slot is not taken
Refused(op) == Out(op, st, 0, 0)
Detach(op) == IF op.i >= Len(st.fs) THEN Out(op, st, -1, 0)
              ELSE Out(op, [st EXCEPT !.fs = SubSeq(@, 1, op.i) \o SubSeq(@, op.i + 2, Len(@))], st.fs[op.i + 1].id, 0)
Sample(op) == LET t == Through(st.fs, op.s) IN Out(op, [st EXCEPT !.fs = t.fs], IF op.quiet THEN 0 ELSE t.out, t.thrown)
Direct(op) == LET a == Apply(st.fs[op.i + 1], op.s) IN Out(op, [st EXCEPT !.fs[op.i + 1] = a[1]], a[1].v, a[2])
Reset(op) == Out(op, [st EXCEPT !.fs = [i \in 1..Len(@) |-> ResetF(@[i], op.v)]], 0, 0)

Step(op) == CASE op.op = "new" -> New(op)
              [] op.op = "attach" -> st.live /\ (IF Len(st.fs) < st.slots THEN Attach(op) ELSE Refused(op))
              [] op.op = "detach" -> st.live /\ Detach(op)
              [] op.op = "sample" -> st.live /\ ExactAll(st.fs, op.s) /\ Sample(op)
              [] op.op = "direct" -> st.live /\ op.i < Len(st.fs) /\ Exact(st.fs[op.i + 1], op.s) /\ Direct(op)
              [] op.op = "reset" -> st.live /\ Reset(op)
FreeId == CHOOSE n \in 1..(Len(st.fs) + 1) : (\A i \in 1..Len(st.fs) : st.fs[i].id # n) /\ (\A m \in 1..(n - 1) : \E i \in 1..Len(st.fs) : st.fs[i].id = m)
MCOps == IF ~st.live THEN {[op |-> "new", slots |-> n, dbl |-> d] : n \in Slots, d \in Doubles}
         ELSE {o \in {[op |-> "attach", id |-> FreeId, c |-> c] : c \in Cfgs} : Len(st.fs) < Compose} \union {[op |-> "detach", i |-> i] : i \in 0..Len(st.fs)}
              \union {o \in {[op |-> "sample", s |-> s, quiet |-> q] : s \in Samples, q \in BOOLEAN} : ExactAll(st.fs, o.s)}
              \union {o \in {[op |-> "direct", i |-> i, s |-> s] : i \in 0..(Len(st.fs) - 1), s \in Samples} : Exact(st.fs[o.i + 1], o.s)}
              \union {[op |-> "reset", v |-> v] : v \in Resets}
--------------------------------------------------------------------------------
TypeOK == Len(st.fs) <= st.slots /\ \A i \in 1..Len(st.fs) : st.fs[i].v \in Int /\ st.fs[i].n \in Nat
\* no two filters are the same one
Distinct == \A i, j \in 1..Len(st.fs) : i # j => st.fs[i].id # st.fs[j].id
Mapped == \A i \in 1..Len(st.fs) : LET f == st.fs[i] IN
             (obs.op.op = "sample" /\ f.c.k = "map") => f.c.olo <= f.v /\ f.v <= f.c.ohi
\* a filter's output is where the next one starts from: the pass-through shows it
Chained == obs.op.op = "sample" => \A i \in 1..Len(st.fs) : st.fs[i].c.k = "pass" => st.fs[i].v = (IF i = 1 THEN obs.op.s ELSE st.fs[i - 1].v)
\* the band-pass output is the last sample it was given, or what it was
BandHolds == [][ obs'.op.op = "sample" => \A i \in 1..Len(st.fs) : LET f == st.fs[i]
                                                                     s == IF i = 1 THEN obs'.op.s ELSE st'.fs[i - 1].v IN
                     f.c.k = "band" => (IF InBand(f, s) THEN st'.fs[i].v = s /\ st'.fs[i].n = 0
                                        ELSE f.fresh \/ (st'.fs[i].v = f.v /\ f.n < f.c.limit) \/ (st'.fs[i].v = s /\ f.n >= f.c.limit)) ]_vars
\* an average lies between what it was and the sample
Between == [][ obs'.op.op = "sample" => \A i \in 1..Len(st.fs) : LET f == st.fs[i]
                                                                   s == IF i = 1 THEN obs'.op.s ELSE st'.fs[i - 1].v IN
                   f.c.k = "ewma" /\ f.n > 0 => (f.v <= st'.fs[i].v /\ st'.fs[i].v <= s) \/ (s <= st'.fs[i].v /\ st'.fs[i].v <= f.v) ]_vars
\* the others keep their order, configuration and state
DetachOne == [][ obs'.op.op = "detach" => \A i \in 1..Len(st'.fs) : st'.fs[i] = st.fs[IF i <= obs'.op.i THEN i ELSE i + 1] ]_vars
ResetAll == [][ obs'.op.op = "reset" => \A i \in 1..Len(st'.fs) : st'.fs[i].v = obs'.op.v ]_vars
================================================================================
