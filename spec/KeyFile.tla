------------------------------ MODULE KeyFile -------------------------------
(* The key a key file contributes, as a function of its bytes.  Bytes are     *)
(* numbers; parsing of XML is given (x), SHA-256 is a table (sha4) of the     *)
(* first bytes of the hash of a key.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IsHex(s) == \A i \in DOMAIN s : HexVal(s[i]) >= 0
Hex(s) == [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2 * i - 1]) + HexVal(s[2 * i])]
IsSpace(c) == c \in {9, 10, 11, 12, 13, 32}
NoSpace(s) == SelectSeq(s, LAMBDA c : ~IsSpace(c))
B64Val(c) == IF c \in 65..90 THEN c - 65 ELSE IF c \in 97..122 THEN c - 71 ELSE IF c \in 48..57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
\* four digits, three bytes; = at the end shortens
Base64(s) ==
    LET d == NoSpace(s)
        q(k) == LET v(j) == IF d[4 * k + j] = 61 THEN 0 ELSE B64Val(d[4 * k + j])
                    n == v(1) * 262144 + v(2) * 4096 + v(3) * 64 + v(4)
                IN <<n \div 65536, (n \div 256) % 256, n % 256>>
        all == FlattenSeq([k \in 1..(Len(d) \div 4) |-> q(k - 1)])
        pad == Cardinality({i \in DOMAIN d : d[i] = 61})
    IN SubSeq(all, 1, Len(all) - pad)
IsBase64(s) == LET d == NoSpace(s) IN Len(d) % 4 = 0 /\ d # <<>> /\ \A i \in DOMAIN d : B64Val(d[i]) >= 0 \/ (d[i] = 61 /\ i >= Len(d) - 1)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
V1 == <<49, 46, 48>>
V2 == <<50, 46, 48>>
\* x = [wf, ver, data, hash]: whether the content is XML with these parts (<<>>: part missing)
Kind(b, x) ==
    IF x.wf /\ x.hasver /\ x.hasdata /\ StartsWith(x.ver, V1) THEN "xml1"
    ELSE IF x.wf /\ x.hasver /\ x.hasdata /\ StartsWith(x.ver, V2) THEN "xml2"
    ELSE IF Len(b) = 32 THEN "raw"
    ELSE IF Len(b) = 64 /\ IsHex(b) THEN "hex"
    ELSE "sha"
\* the key, or how it is refused; Sha is the name of the hash of the content
Sha == <<-1>>
Key(b, x) ==
    LET k == Kind(b, x)
    IN CASE k = "xml1" -> Base64(x.data) [] k = "xml2" -> Hex(NoSpace(x.data)) [] k = "raw" -> b [] k = "hex" -> Hex(b) [] k = "sha" -> Sha
\* white space between the two digits of a byte: a reader may refuse the file instead
Split(s) ==
    LET cnt(i) == Cardinality({j \in 1..i : ~IsSpace(s[j])})
    IN \E i \in DOMAIN s : IsSpace(s[i]) /\ cnt(i) % 2 = 1 /\ cnt(i) < cnt(Len(s))
MayRefuse(b, x) == Kind(b, x) = "xml2" /\ (Split(x.data) \/ Split(x.hash))
Refused(b, x, sha4(_)) == Kind(b, x) = "xml2" /\ Hex(NoSpace(x.hash)) # sha4(Key(b, x))
=============================================================================
