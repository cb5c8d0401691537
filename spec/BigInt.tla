---------------------------------- MODULE BigInt ----------------------------------
(* Exact integers beyond TLC's 32 bits: sign and limbs in base 10^4, least first.    *)
EXTENDS Integers, Sequences
LOCAL B == 10000
Zero == [n |-> FALSE, m |-> <<>>]

RECURSIVE Trim(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] # 0 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))
Mk(n, m) == LET t == Trim(m) IN [n |-> n /\ t # <<>>, m |-> t]
LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
LOCAL Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

\* magnitudes
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF Limb(a, i) > Limb(b, i) THEN 1 ELSE IF Limb(a, i) < Limb(b, i) THEN -1 ELSE CmpAt(a, b, i - 1)
MCmp(a, b) == CmpAt(a, b, Longer(a, b))
RECURSIVE AddAt(_, _, _, _)
AddAt(a, b, i, c) == IF i > Longer(a, b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                     ELSE LET s == Limb(a, i) + Limb(b, i) + c IN <<s % B>> \o AddAt(a, b, i + 1, s \div B)
MAdd(a, b) == AddAt(a, b, 1, 0)
RECURSIVE SubAt(_, _, _, _)       \* a >= b
SubAt(a, b, i, c) == IF i > Len(a) THEN <<>>
                     ELSE LET s == Limb(a, i) - Limb(b, i) - c IN <<s % B>> \o SubAt(a, b, i + 1, IF s < 0 THEN 1 ELSE 0)
MSub(a, b) == Trim(SubAt(a, b, 1, 0))
RECURSIVE MulAt(_, _, _, _)
MulAt(a, k, i, c) == IF i > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o (IF c >= B THEN <<c \div B>> ELSE <<>>))
                     ELSE LET s == a[i] * k + c IN <<s % B>> \o MulAt(a, k, i + 1, s \div B)
MMulS(a, k) == Trim(MulAt(a, k, 1, 0))            \* 0 <= k <= 10^5
RECURSIVE MulUp(_, _, _)
MulUp(a, b, j) == IF j > Len(b) THEN <<>> ELSE MAdd(MMulS(a, b[j]), <<0>> \o MulUp(a, b, j + 1))
MMul(a, b) == Trim(MulUp(a, b, 1))
RECURSIVE DivAt(_, _, _, _)
DivAt(a, k, i, r) == IF i = 0 THEN <<>> ELSE LET s == r * B + a[i] IN Append(DivAt(a, k, i - 1, s % k), s \div k)
MDivS(a, k) == Trim(DivAt(a, k, Len(a), 0))        \* 1 <= k <= 10^5, rounded down

\* signed
Neg(x) == Mk(~x.n, x.m)
Add(x, y) == IF x.n = y.n THEN Mk(x.n, MAdd(x.m, y.m))
             ELSE IF MCmp(x.m, y.m) >= 0 THEN Mk(x.n, MSub(x.m, y.m)) ELSE Mk(y.n, MSub(y.m, x.m))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Mk(x.n # y.n, MMul(x.m, y.m))
Cmp(x, y) == LET d == Sub(x, y) IN IF d.m = <<>> THEN 0 ELSE IF d.n THEN -1 ELSE 1
MulS(x, k) == Mk(x.n, MMulS(x.m, k))               \* k >= 0
\* the number a small non-negative magnitude stands for
Small(x) == (IF Len(x.m) > 1 THEN x.m[2] * B ELSE 0) + Limb(x.m, 1)
IsSmall(x) == Len(x.m) <= 1 \/ (Len(x.m) = 2 /\ x.m[2] <= 9)
Abs(i) == IF i < 0 THEN -i ELSE i
Of(i) == Mk(i < 0, <<Abs(i) % B, (Abs(i) \div B) % B, Abs(i) \div (B * B)>>)
================================================================================
