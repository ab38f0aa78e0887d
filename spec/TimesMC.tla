------------------------------ MODULE TimesMC -------------------------------
(* Boundary instants, offsets, distances from now.  Checks that the calendar   *)
(* and the codec invert, that expiry and demanded changes are monotone, and    *)
(* prints the cases for the harness.                                           *)
EXTENDS Times, Json
CONSTANT EMIT, WHAT
D(y, m, d) == Day(y, m, d)
Days == {0, 1, 58, 59, 364, 365, D(4, 2, 29), D(1582, 10, 15), D(1600, 2, 29), D(1899, 12, 31), D(1900, 2, 28), D(1900, 3, 1), D(1969, 12, 31), D(1970, 1, 1), D(2000, 2, 29), D(2000, 12, 31),
         D(2019, 9, 9), D(2024, 2, 29), D(2024, 3, 31), D(2024, 10, 27), D(2024, 11, 3), D(2038, 1, 19), D(2100, 2, 28), D(2106, 2, 7), D(2400, 2, 29), D(5000, 7, 1), LastDay - 1, LastDay}
Secs == {0, 1, 59, 3599, 3600, 10800, 43200, 45296, 86398, 86399}
Us == {0, 1, 500000, 900000}
Offs == {0, 3600, -3600, 19800, 20700, -34200, 50400, -43200, 86340, -86340, 30, -4522}
Fields == {"ctime", "mtime", "atime", "expiry_time", "credchange_date", "new", "new naive"}
Enc == [what : {"enc"}, v : {3, 4}, t : {<<d, s, u>> : d \in Days, s \in Secs, u \in Us}, off : Offs, f : Fields]
EncOk(e) == Valid(Shift(e.t, e.off)) /\ (e.f = "new naive" => e.t[1] > 10 /\ e.t[1] < LastDay - 10)
Forms == {"bin", "Z", "none", "+00:00", "off", "ms Z", "us off", "space Z"}
Dec == [what : {"dec"}, v : {3, 4}, t : {<<d, s, u>> : d \in Days, s \in Secs, u \in {0, 500000}}, off : {3600, 20700, -34200, 86340}, f : {"ctime", "mtime", "atime", "expiry_time", "credchange_date"}, form : Forms]
DecOk(e) == /\ e.form = "bin" => e.v = 4
            /\ e.form \in {"off", "us off"} => Valid(Shift(e.t, e.off))
            /\ e.form \notin {"off", "us off"} => e.off = 3600
            /\ e.t[3] # 0 => e.form \in {"ms Z", "us off"}
\* how far now is from the expiry time, in whole days, seconds and microseconds
Near == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, -1>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 3599, 0>>, <<0, -3599, 0>>, <<0, 3601, 0>>, <<0, 46800, 0>>, <<0, -46800, 0>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<400, 5, 0>>, <<-400, 5, 0>>, <<200000, 0, 0>>, <<-200000, 0, 0>>}
Add(t, n) == LET u == t[3] + n[3] s == t[2] + n[2] + u \div 1000000 IN <<t[1] + n[1] + s \div 86400, s % 86400, u % 1000000>>
ExpT == {<<d, s, 0>> : d \in {D(1970, 1, 1) + 1, D(2000, 2, 29), D(2024, 3, 31), D(2024, 10, 27), D(2024, 12, 31), D(2038, 1, 19), D(2106, 2, 7), D(2259, 12, 30)}, s \in {0, 3600, 45296, 86399}}
\* the process clock lies between 1970 and 2260 (what the system clock can say)
Clock(t) == t[1] \in D(1970, 1, 1)..D(2260, 1, 1)
Exp == [what : {"exp"}, v : {3, 4}, x : ExpT, n : Near, on : BOOLEAN, el : {"entry", "group", "history"}]
ExpOk(e) == Clock(Add(e.x, e.n))
Ns == {0, 1, 2, 7, 30, 365, 366, 10000, -1, NoDays}
Off == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, -1>>, <<0, 1, 0>>, <<0, -1, 0>>, <<0, 3600, 0>>, <<0, -3600, 0>>, <<0, 43200, 0>>, <<0, -43200, 0>>}
\* now is k days after the change, k around n
Cred == [what : {"cred"}, v : {3, 4}, x : {<<d, s, 0>> : d \in {D(1971, 1, 2), D(2000, 2, 28), D(2024, 3, 30), D(2024, 10, 26), D(2024, 12, 31)}, s \in {0, 3600, 45296, 86399}}, n : Ns, k : {-1, 0, 1, 2}, o : Off, rec : BOOLEAN, set : BOOLEAN]
At(e) == Add(e.x, <<(IF e.n = NoDays \/ e.n = -1 THEN 0 ELSE e.n) + e.k, e.o[2], e.o[3]>>)
CredOk(e) == Clock(At(e)) /\ (~e.set => e.k = 1)
VARIABLE c
Init == CASE WHAT = "enc" -> c \in {e \in Enc : EncOk(e)}
          [] WHAT = "dec" -> c \in {e \in Dec : DecOk(e)}
          [] WHAT = "exp" -> c \in {e \in Exp : ExpOk(e)}
          [] WHAT = "cred" -> c \in {e \in Cred : CredOk(e)}
          [] WHAT = "cal" -> c \in [what : {"cal"}, y : 1..9999]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Asc(s) == [i \in 1..Len(s) |-> s[i]]
\* years follow each other, months within a year, bytes invert
Calendar == c.what = "cal" =>
    /\ c.y < 9999 => Day(c.y + 1, 1, 1) = Day(c.y, 12, 31) + 1
    /\ \A m \in 1..11 : Day(c.y, m + 1, 1) = Day(c.y, m, MonthLen(c.y, m)) + 1
    /\ \A m \in 1..12 : LET t == <<Day(c.y, m, MonthLen(c.y, m)), (c.y * 37 + m * 7001) % 86400, 0>> IN FromBytes8(Bytes8(t)) = t
    /\ c.y = 9999 => Day(9999, 12, 31) = LastDay
Codec == c.what \in {"enc", "dec"} =>
    /\ FromBytes8(Bytes8(c.t)) = <<c.t[1], c.t[2], 0>>
    /\ Shift(Shift(c.t, c.off), -c.off) = c.t
    /\ Stored(c.v, Stored(c.v, c.t)) = Stored(c.v, c.t)
Monotone ==
    /\ c.what = "exp" => /\ Expired(c.on, c.x, Add(c.x, c.n)) => Expired(c.on, c.x, Add(Add(c.x, c.n), <<0, 0, 1>>))
                         /\ Expired(c.on, c.x, Add(c.x, c.n)) = (c.on /\ Before(<<0, 0, 0>>, Add(<<0, 0, 0>>, c.n)))
    /\ c.what = "cred" => /\ Demanded(c.n, c.x, At(c)) => Demanded(c.n, c.x, Add(At(c), <<0, 1, 0>>))
                          /\ c.n > 0 /\ Demanded(c.n, c.x, At(c)) => Demanded(c.n - 1, c.x, At(c))
                          /\ c.n >= 0 => (Demanded(c.n, c.x, At(c)) = ~Before(At(c), Add(c.x, <<c.n + 1, 0, 0>>)))
                          /\ ~Demanded(c.n, <<>>, At(c))
Emit == ~EMIT \/ PrintT("TM " \o ToJson(CASE c.what = "exp" -> [c |-> c, now |-> Add(c.x, c.n)] [] c.what = "cred" -> [c |-> c, now |-> At(c)] [] OTHER -> [c |-> c, now |-> 0]))
=============================================================================
