-------------------------------- MODULE Kdbx --------------------------------
(***************************************************************************)
(* The KDBX 3/4 container: configurations, the layout a written file must    *)
(* have, what a reader reports of it, and a reader for damaged files over an *)
(* abstract file whose checksums are ideal (injective).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RangeSeq(s) == {s[i] : i \in DOMAIN s}
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)

-----------------------------------------------------------------------------
(* 1. Configurations of files a foreign program may write.                   *)
Ciphers == {"aes256", "twofish", "chacha20"}
Kdfs(maj) == IF maj = 3 THEN {"aeskdf"} ELSE {"aeskdf", "argon2", "argon2id"}
Streams == {"salsa20", "chacha20"}
BlockKinds == {"one", "small", "mixed", "tiny"}
Orders == {"usual", "reversed", "shuffled"}
Extras(maj) == IF maj = 3 THEN {"none", "comment"} ELSE {"none", "comment", "custom", "both"}
Hashes(maj) == IF maj = 3 THEN {TRUE, FALSE} ELSE {FALSE}
Configs ==
    UNION {{[maj |-> v[1], min |-> v[2], cipher |-> c, kdf |-> k, comp |-> z, stream |-> s, blocks |-> b, order |-> o,
             extra |-> x, hh |-> h] :
               c \in Ciphers, k \in Kdfs(v[1]), z \in BOOLEAN, s \in Streams, b \in BlockKinds, o \in Orders,
               x \in Extras(v[1]), h \in Hashes(v[1])} : v \in {<<3, 0>>, <<3, 1>>, <<4, 0>>, <<4, 1>>}}

-----------------------------------------------------------------------------
(* 2. Layout of a written file, as an independent scanner saw it.            *)
Known(maj) == IF maj = 3 THEN 0..10 ELSE {0, 1, 2, 3, 4, 7, 11, 12}
Needed(maj) == IF maj = 3 THEN {2, 3, 4, 5, 6, 7, 8, 9, 10} ELSE {2, 3, 4, 7, 11}
FieldLen(id, cipher) ==      \* -1: any
    CASE id = 2 -> 16 [] id = 3 -> 4 [] id = 4 -> 32 [] id = 5 -> 32 [] id = 6 -> 8
      [] id = 7 -> (IF cipher = "chacha20" THEN 12 ELSE 16) [] id = 9 -> 32 [] id = 10 -> 4 [] OTHER -> -1
Blocked(cipher) == cipher \in {"aes256", "twofish"}

HeaderFaults(L) ==
    LET ids == [i \in DOMAIN L.fields |-> L.fields[i].id]
    IN (IF L.sig THEN {} ELSE {"signature"}) \union
       (IF RangeSeq(ids) \subseteq Known(L.maj) THEN {} ELSE {"unknown header field"}) \union
       (IF Needed(L.maj) \subseteq RangeSeq(ids) THEN {} ELSE {"missing header field"}) \union
       (IF Cardinality(RangeSeq(ids)) = Len(ids) THEN {} ELSE {"repeated header field"}) \union
       (IF Len(ids) > 0 /\ ids[Len(ids)] = 0 /\ \A i \in 1..(Len(ids) - 1) : ids[i] # 0 THEN {} ELSE {"header end"}) \union
       (IF \A i \in DOMAIN L.fields : FieldLen(ids[i], L.cipher) \in {-1, L.fields[i].len} THEN {} ELSE {"header field length"}) \union
       (IF L.cipher \in Ciphers THEN {} ELSE {"cipher id"}) \union
       (IF L.kdf \in Kdfs(L.maj) THEN {} ELSE {"kdf"}) \union
       (IF L.stream \in Streams THEN {} ELSE {"inner stream id"})

\* data blocks, then exactly one empty block; indices count up from 0; every checksum right
BlockFaults(L) ==
    LET n == Len(L.blocks)
    IN IF n = 0 THEN {"no payload blocks"} ELSE
       (IF L.blocks[n].len = 0 THEN {} ELSE {"no final block"}) \union
       (IF \A i \in 1..(n - 1) : L.blocks[i].len > 0 THEN {} ELSE {"empty block inside"}) \union
       (IF \A i \in 1..n : L.blocks[i].i = i - 1 THEN {} ELSE {"block index"}) \union
       (IF \A i \in 1..n : L.blocks[i].ok THEN {} ELSE {"block checksum"}) \union
       (IF L.trailing = 0 THEN {} ELSE {"data behind the final block"})

\* sizes: encrypted = padded; padding 1..16 for block ciphers, none for chacha20
PaddingFaults(L) ==
    IF Blocked(L.cipher)
    THEN (IF L.enc % 16 = 0 THEN {} ELSE {"encrypted length"}) \union
         (IF L.pad \in 1..16 THEN {} ELSE {"padding"}) \union
         (IF L.enc = L.dec + L.pad THEN {} ELSE {"padded length"})
    ELSE IF L.pad = 0 /\ L.enc = L.dec THEN {} ELSE {"padding"}

\* KDBX4 inner header: stream id, stream key, binaries, end
InnerFaults(L) ==
    IF L.maj = 3 THEN {} ELSE
    LET t == [i \in DOMAIN L.inner |-> L.inner[i].t]
        cnt(x) == Cardinality({i \in DOMAIN t : t[i] = x})
    IN (IF RangeSeq(t) \subseteq {0, 1, 2, 3} THEN {} ELSE {"inner field"}) \union
       (IF cnt(1) = 1 /\ cnt(2) = 1 THEN {} ELSE {"inner stream fields"}) \union
       (IF Len(t) > 0 /\ t[Len(t)] = 0 /\ cnt(0) = 1 THEN {} ELSE {"inner end"}) \union
       (IF \A i \in DOMAIN t : t[i] = 3 => L.inner[i].flag \in {0, 1} THEN {} ELSE {"binary flag"})

\* values in document order: p protected, n bytes of clear text, off where the stream was when it was
\* encrypted (-1: stored as it is, -2: neither)
ProtFaults(L) ==
    LET before[i \in 0..Len(L.vals)] == IF i = 0 THEN 0 ELSE before[i - 1] + (IF L.vals[i].p THEN L.vals[i].n ELSE 0)
    IN {"clear protected value" : i \in {j \in DOMAIN L.vals : L.vals[j].p /\ L.vals[j].n > 0 /\ L.vals[j].off = -1}} \union
       {"protected value not in stream order" :
            i \in {j \in DOMAIN L.vals : L.vals[j].p /\ L.vals[j].n > 0 /\ L.vals[j].off \notin {-1, before[j - 1]}}} \union
       {"unprotected value not stored as it is" : i \in {j \in DOMAIN L.vals : ~L.vals[j].p /\ L.vals[j].off # -1}}

LayoutFaults(L) ==
    IF L.err # "" THEN {L.err} ELSE
    HeaderFaults(L) \union BlockFaults(L) \union PaddingFaults(L) \union InnerFaults(L) \union ProtFaults(L) \union
    (IF L.maj = 4 /\ ~L.sha THEN {"header hash"} ELSE {}) \union
    (IF L.maj = 4 /\ ~L.hmac THEN {"header hmac"} ELSE {}) \union
    (IF L.maj = 3 /\ ~L.start THEN {"stream start bytes"} ELSE {}) \union
    (IF L.maj = 3 /\ L.hh = "bad" THEN {"header hash in the payload"} ELSE {}) \union
    (IF L.comp # L.gz THEN {"compression"} ELSE {})

-----------------------------------------------------------------------------
(* 3. Damaged files.  An abstract file is a sequence of cells; a cell carries *)
(* what it is, for a block the index o it was written for, and whether its    *)
(* bytes are original.  Checksums are ideal.                                  *)
Cell(k, o) == [k |-> k, o |-> o, v |-> "ok"]
\* nf header fields; nb data blocks and the final one
File(nf, nb) ==
    <<Cell("sig", 0), Cell("ver", 0)>> \o [i \in 1..nf |-> Cell("field", i)] \o <<Cell("sha", 0), Cell("hmac", 0)>> \o
    FlattenSeq([j \in 1..(nb + 1) |-> <<Cell("mac", j - 1), Cell("len", j - 1), Cell("data", j - 1)>>])
BlockStart(nf, j) == 2 + nf + 2 + 3 * j + 1            \* j from 0

Alter(f, i) == [f EXCEPT ![i].v = "x"]
Cut(f, i) == SubSeq(f, 1, i - 1) \o <<[f[i] EXCEPT !.v = "short"]>>
DropBlock(f, nf, j) == LET s == BlockStart(nf, j) IN SubSeq(f, 1, s - 1) \o SubSeq(f, s + 3, Len(f))
RepeatBlock(f, nf, j) == LET s == BlockStart(nf, j) IN SubSeq(f, 1, s + 2) \o SubSeq(f, s, Len(f))
SwapBlocks(f, nf, j, k) ==
    LET s == BlockStart(nf, j)
        t == BlockStart(nf, k)
    IN [i \in DOMAIN f |-> IF i \in s..(s + 2) THEN f[t + (i - s)] ELSE IF i \in t..(t + 2) THEN f[s + (i - t)] ELSE f[i]]
\* the attacker can recompute the plain header hash, not the keyed one
Forge(f, i, nf) == [f EXCEPT ![i].v = "x", ![nf + 3].v = "forged"]

\* What a reader with the right key finds; wf: the (altered) header still parses; nb data blocks originally
Blocks4(f, s, nb) ==
    LET G[p \in 0..(nb + 3)] ==
            LET i == s + 3 * p
            IN IF i + 2 > Len(f) \/ f[i].v = "short" \/ f[i + 1].v = "short" \/ f[i + 2].v = "short" THEN {"truncated"}
               ELSE IF f[i + 1].v = "x" THEN {"block", "truncated"}
               ELSE IF \E c \in 0..2 : f[i + c].v # "ok" \/ f[i + c].o # p THEN {"block"}
               ELSE IF p = nb THEN {"content"} ELSE G[p + 1]
    IN G[0]
Reader4(f, nf, nb, wf) ==
    LET hdr == SubSeq(f, 1, IF Len(f) < nf + 2 THEN Len(f) ELSE nf + 2)
    IN IF \E i \in DOMAIN hdr : hdr[i].v = "short" THEN {"truncated"}
       ELSE IF f[1].v # "ok" THEN {"signature"}
       ELSE IF ~wf THEN {"malformed"}
       ELSE IF Len(f) < nf + 3 \/ f[nf + 3].v = "short" THEN {"truncated"}
       ELSE LET touched == \E i \in DOMAIN hdr : hdr[i].v = "x"
                forged == f[nf + 3].v = "forged"
            IN IF (touched /\ ~forged) \/ (~touched /\ forged) \/ f[nf + 3].v = "x" THEN {"header"}
               ELSE IF Len(f) < nf + 4 \/ f[nf + 4].v = "short" THEN {"truncated"}
               ELSE IF touched \/ f[nf + 4].v = "x" THEN {"keyed header"}
               ELSE Blocks4(f, nf + 5, nb)

\* how the library may report a finding
Errors == {"HeaderChecksumError", "PayloadChecksumError", "CredentialsError", "other"}
Report4(x) ==
    CASE x = "signature" -> {"HeaderChecksumError"}
      [] x = "header" -> {"HeaderChecksumError"}
      [] x = "keyed header" -> {"CredentialsError", "HeaderChecksumError"}
      [] x = "block" -> {"PayloadChecksumError"}
      [] x = "truncated" -> Errors
      [] x = "malformed" -> Errors
      [] x = "content" -> {"content"}

-----------------------------------------------------------------------------
(* 4. What is reported of a file, whatever was decrypted                      *)
ReportFaults(file, rep) == {k \in DOMAIN rep : rep[k] # file[k]}
=============================================================================
