------------------------------- MODULE Times --------------------------------
(* Instants, their two textual encodings in a database, and what depends on   *)
(* them.  An instant is <<day, second, microsecond>> of UTC, day 0 being      *)
(* 0001-01-01.  Texts are sequences of character codes.                       *)
EXTENDS KeyFile
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m \in {4, 6, 9, 11} THEN 30 ELSE IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE 31
BeforeMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
\* days before year y, and the day of a civil date
BeforeYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
Day(y, m, d) == BeforeYear(y) + BeforeMonth[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
LastDay == 3652058
\* an instant shifted by seconds (|s| < 2^24)
Shift(t, s) == LET x == t[2] + s IN <<t[1] + x \div 86400, x % 86400, t[3]>>
\* x \div and x % round towards minus infinity, so this also holds for negative x
Valid(t) == t[1] \in 0..LastDay /\ t[2] \in 0..86399 /\ t[3] \in 0..999999
Before(t, u) == t[1] < u[1] \/ (t[1] = u[1] /\ (t[2] < u[2] \/ (t[2] = u[2] /\ t[3] < u[3])))
\* the instant of a civil time c = <<y, m, d, h, mi, s, us>> at an offset of off seconds east of UTC
Instant(c, off) == Shift(<<Day(c[1], c[2], c[3]), c[4] * 3600 + c[5] * 60 + c[6], c[7]>>, -off)

-----------------------------------------------------------------------------
\* KDBX 4: seconds since day 0, little endian in eight bytes, in base 64
RECURSIVE MulAdd(_, _, _)
\* digits (base 256, least first) of n * 86400 + c
MulAdd(n, c, k) == IF k = 0 THEN <<>> ELSE LET x == (n % 256) * 86400 + c IN <<x % 256>> \o MulAdd(n \div 256, x \div 256, k - 1)
Bytes8(t) == MulAdd(t[1], t[2], 8)
\* <<day, second>> of eight bytes; a number of days beyond the calendar is cut to LastDay + 1
RECURSIVE DivDays(_, _, _, _)
DivDays(b, i, q, r) ==
    IF i = 0 THEN <<q, r>>
    ELSE LET x == r * 256 + b[i]
         IN IF q > LastDay THEN DivDays(b, i - 1, LastDay + 1, x % 86400)
            ELSE DivDays(b, i - 1, q * 256 + x \div 86400, x % 86400)
FromBytes8(b) == LET x == DivDays(b, 8, 0, 0) IN <<x[1], x[2], 0>>
IsBin(s) == IsBase64(s) /\ Len(s) = 12 /\ Len(Base64(s)) = 8

-----------------------------------------------------------------------------
\* plain text: YYYY-MM-DDThh:mm:ss, a fraction, then nothing, Z or an offset
Dig(s, i) == s[i] - 48
IsDig(c) == c \in 48..57
Two(s, i) == 10 * Dig(s, i) + Dig(s, i + 1)
DigRun(s, i) == \* how many digits follow position i
    LET stop == {j \in i..Len(s) : ~IsDig(s[j])} IN IF stop = {} THEN Len(s) - i + 1 ELSE (CHOOSE j \in stop : \A k \in stop : j <= k) - i
RECURSIVE Num(_, _, _)
Num(s, i, n) == IF n = 0 THEN 0 ELSE 10 * Num(s, i, n - 1) + (IF i + n - 1 <= Len(s) /\ IsDig(s[i + n - 1]) THEN Dig(s, i + n - 1) ELSE 0)
IsIso(s) == /\ Len(s) >= 19
            /\ \A i \in {1, 2, 3, 4, 6, 7, 9, 10, 12, 13, 15, 16, 18, 19} : IsDig(s[i])
            /\ s[5] = 45 /\ s[8] = 45 /\ s[11] \in {84, 32} /\ s[14] = 58 /\ s[17] = 58
IsoInstant(s) ==
    LET frac == IF Len(s) > 19 /\ s[20] = 46 THEN DigRun(s, 21) ELSE 0
        us == IF frac = 0 THEN 0 ELSE IF frac >= 6 THEN Num(s, 21, 6) ELSE Num(s, 21, frac) * (10 ^ (6 - frac))
        z == IF frac = 0 THEN 20 ELSE 21 + frac
        off == IF z > Len(s) THEN 0 ELSE IF s[z] = 90 THEN 0
               ELSE (IF s[z] = 45 THEN -1 ELSE 1) * (3600 * Two(s, z + 1) + 60 * Two(s, z + 4) + (IF Len(s) > z + 6 THEN Two(s, z + 7) ELSE 0))
    IN Instant(<<Num(s, 1, 4), Two(s, 6), Two(s, 9), Two(s, 12), Two(s, 15), Two(s, 18), us>>, off)

\* what a text in a database of major version v means; Bad: nothing
Bad == <<-1, -1, -1>>
Decode(v, s) == IF v = 4 /\ IsBin(s) THEN FromBytes8(Base64(s)) ELSE IF IsIso(s) THEN IsoInstant(s) ELSE Bad
\* what remains of an instant that is stored
Stored(v, t) == IF v = 4 THEN <<t[1], t[2], 0>> ELSE t

-----------------------------------------------------------------------------
Expired(on, x, now) == on /\ Before(x, now)
\* whole days from t to u (negative if u is before t)
WholeDays(t, u) == u[1] - t[1] - (IF Before(<<0, u[2], u[3]>>, <<0, t[2], t[3]>>) THEN 1 ELSE 0)
\* n: configured days or NoDays; changed: <<>> if nothing is recorded
NoDays == -99
Demanded(n, changed, now) == n # NoDays /\ n # -1 /\ changed # <<>> /\ WholeDays(changed, now) > n
=============================================================================
