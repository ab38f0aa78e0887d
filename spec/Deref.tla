------------------------------- MODULE Deref --------------------------------
(* Field references: {REF:<wanted>@<search in>:<text>}.  Texts are sequences  *)
(* of code points; E is the sequence of entries in document order.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANT IdLen          \* digits of a UUID: 32, or fewer for model checking
Letters == [T |-> 84, U |-> 85, P |-> 80, A |-> 65, N |-> 78, I |-> 73]
Letter(c) == IF \E k \in DOMAIN Letters : Letters[k] = c THEN CHOOSE k \in DOMAIN Letters : Letters[k] = c ELSE "-"
Open == <<123, 82, 69, 70, 58>>         \* {REF:
At(s, i, t) == i + Len(t) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(t) - 1) = t
\* the end of the reference that starts at i, 0 if none does
RefEnd(s, i) ==
    IF /\ s[i] = 123 /\ At(s, i, Open) /\ i + 9 <= Len(s)
       /\ Letter(s[i + 5]) # "-" /\ s[i + 6] = 64 /\ Letter(s[i + 7]) # "-" /\ s[i + 8] = 58
       /\ s[i + 9] # 125
    THEN LET ends == {j \in (i + 10)..Len(s) : s[j] = 125}
         IN IF ends = {} THEN 0 ELSE CHOOSE j \in ends : \A k \in ends : j <= k
    ELSE 0
\* the text as a sequence of single characters and references
RECURSIVE Parts(_, _)
Parts(s, i) == IF i > Len(s) THEN <<>>
               ELSE LET j == RefEnd(s, i)
                    IN IF j = 0 THEN <<[r |-> FALSE, t |-> <<s[i]>>]>> \o Parts(s, i + 1)
                       ELSE <<[r |-> TRUE, t |-> SubSeq(s, i, j), w |-> Letter(s[i + 5]), in |-> Letter(s[i + 7]), v |-> SubSeq(s, i + 9, j - 1)]>> \o Parts(s, j + 1)
\* a UUID is given by its hexadecimal digits, dashes do not count
Hx(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
Digits(v) == LET d == SelectSeq(v, LAMBDA c : c # 45) IN [i \in DOMAIN d |-> Hx(d[i])]
IsUuid(v) == Len(Digits(v)) = IdLen /\ \A i \in 1..IdLen : Digits(v)[i] >= 0
Upper(d) == [i \in DOMAIN d |-> IF d[i] < 10 THEN d[i] + 48 ELSE d[i] + 55]
\* first entry (no history entry) that matches, 0 if none
Match(E, p) ==
    LET ok(e) == ~e.hist /\ IF p.in = "I" THEN Digits(p.v) = e.id ELSE p.in \in DOMAIN e.f /\ e.f[p.in] = p.v
        m == {i \in DOMAIN E : ok(E[i])}
    IN IF p.in = "I" /\ ~IsUuid(p.v) THEN 0 ELSE IF m = {} THEN 0 ELSE CHOOSE i \in m : \A j \in m : i <= j
None == [k |-> "none", t |-> <<>>]
Txt(t) == [k |-> "text", t |-> t]
Field(e, w) == IF w = "I" THEN Upper(e.id) ELSE IF w \in DOMAIN e.f THEN e.f[w] ELSE <<>>
RECURSIVE Resolve(_, _, _), Join(_, _, _, _)
Resolve(E, s, busy) == Join(E, Parts(s, 1), 1, busy)
Join(E, ps, k, busy) ==
    IF k > Len(ps) THEN Txt(<<>>)
    ELSE LET p == ps[k]
             m == IF p.r THEN Match(E, p) ELSE 0
             head == IF ~p.r THEN Txt(p.t) ELSE IF p.t \in busy \/ m = 0 THEN None ELSE Resolve(E, Field(E[m], p.w), busy \union {p.t})
         IN IF head.k = "none" THEN None
            ELSE LET rest == Join(E, ps, k + 1, busy) IN IF rest.k = "none" THEN None ELSE Txt(head.t \o rest.t)
\* a reference to a UUID and nothing else gives the UUID itself
Deref(E, s) ==
    LET ps == Parts(s, 1)
        r == Resolve(E, s, {})
    IN IF Len(ps) = 1 /\ ps[1].r /\ ps[1].w = "I" /\ r.k = "text" THEN [k |-> "uuid", t |-> r.t] ELSE r
\* the reference an entry creates
Ref(e, w) == Open \o <<Letters[w], 64, 73, 58>> \o Upper(e.id) \o <<125>>
=============================================================================
