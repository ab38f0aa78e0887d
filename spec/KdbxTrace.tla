----------------------------- MODULE KdbxTrace ------------------------------
(* Judges recorded observations of the container layer; prints every failing  *)
(* clause.  Events:                                                           *)
(*  io    : a foreign file was opened, (edited,) saved and opened again       *)
(*  fault : a damaged file was opened                                         *)
(*  clear : which secrets occur in the clear in a decrypted payload           *)
EXTENDS Kdbx, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
C(p, c) == [p |-> p, c |-> c]

Eq(p, c, a, b) == IF a = b THEN {} ELSE {C(p, c)}
Io(e) ==
    Eq("C06", "opened content differs from the file", e.put, e.got) \union
    Eq("C01", "save() changed the database in memory", e.mem, e.mem2) \union
    Eq("C06", "an independent reader finds other content", e.mem, e.dec) \union
    Eq("C01", "reopened content differs", e.mem, e.re) \union
    {C("C01", "not kept: " \o k) : k \in {j \in DOMAIN e.par0 : e.par0[j] # e.par1[j]}} \union
    {C("C06", "header fields not kept: " \o k) : k \in {j \in {"extra", "kdfitems"} \cap DOMAIN e.par0 : e.par0[j] # e.par1[j]}} \union
    UNION {LET fs == LayoutFaults(L) IN {C("C06", x) : x \in fs} \union
                                        {C("C16", x) : x \in ProtFaults(L)} \union
                                        (IF fs # {} THEN {C("C01", "unreadable file")} ELSE {}) : L \in RangeSeq(e.lay)} \union
    UNION {{C("C19", e.reps[i].how \o " reports another " \o k) : k \in ReportFaults(e.reps[i].file, e.reps[i].rep)} : i \in DOMAIN e.reps} \union
    {C("C19", "not refused without decryption: " \o x) : x \in RangeSeq(e.shown)} \union
    {C(x.p, x.c) : x \in RangeSeq(e.exc)}

Apply(e) ==
    LET F == File(e.nf, e.nb)
        one(g, x) == CASE x.op = "alter" -> Alter(g, x.i) [] x.op = "cut" -> Cut(g, x.i) [] x.op = "drop" -> DropBlock(g, e.nf, x.i)
                       [] x.op = "repeat" -> RepeatBlock(g, e.nf, x.i) [] x.op = "swap" -> SwapBlocks(g, e.nf, x.i, x.j)
                       [] x.op = "forge" -> Forge(g, x.i, e.nf)
    IN FoldLeft(one, F, e.fl)
\* kdf: the altered bytes are parameters of the key derivation, which may fail first
Allowed4(e) ==
    LET fnd == Reader4(Apply(e), e.nf, e.nb, e.wf)
        all == UNION {Report4(x) : x \in fnd} \union (IF e.kdf THEN Errors ELSE {})
    IN IF e.decrypt THEN all
       ELSE IF fnd \subseteq {"keyed header", "block", "truncated", "content"} THEN all \union Errors \union {"content"} ELSE all
\* KDBX3: an error, or exactly the original content; a wrong signature is reported as such
Allowed3(e) ==
    IF \E x \in RangeSeq(e.fl) : x.op = "alter" /\ x.i = 1 THEN {"HeaderChecksumError"}
    ELSE IF e.decrypt THEN Errors \union {"content"} ELSE Errors \union {"content", "wrong"}
\* KDBX3 payload rebuilt with the key: a block hash that does not match
AllowedKey(e) == IF e.fl[1].op = "hash" THEN {"PayloadChecksumError"}
                 ELSE IF e.fl[1].op = "rehash" THEN {"HeaderChecksumError"}     \* the header is well-formed, its hash another one
                 ELSE Errors
Fault(e) ==
    LET al == IF e.fl[1].op \in {"hash", "reorder", "rehash"} THEN AllowedKey(e) ELSE IF e.maj = 4 THEN Allowed4(e) ELSE Allowed3(e)
    IN IF e.out \in al THEN {} ELSE {C("C04", "damage " \o e.fl[1].op \o " of " \o e.cell \o ": " \o e.out)}

\* a secret may be seen in the payload only if an unprotected value holds it, and then it is seen
Clear(e) ==
    {C("C16", "secret in the clear") : x \in {s \in RangeSeq(e.secrets) : s.seen /\ s.plain = 0}} \union
    {C("C16", "unprotected value not stored as it is") : x \in {s \in RangeSeq(e.secrets) : ~s.seen /\ s.plain > 0}}

Judge(e) == CASE e.k = "io" -> Io(e) [] e.k = "fault" -> Fault(e) [] e.k = "clear" -> Clear(e)

VARIABLES l, fails
Init == l = 1 /\ fails = <<>>
Next == /\ l <= Len(Trace)
        /\ fails' = fails \o SetToSeq({[l |-> l, p |-> f.p, c |-> f.c] : f \in Judge(Trace[l])})
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, fails>>
View == l
Report == l <= Len(Trace) \/ PrintT("FAILS " \o ToJson([n |-> Len(Trace), fails |-> fails]))
=============================================================================
