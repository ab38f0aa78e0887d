----------------------------- MODULE SaveFSTrace ----------------------------
(* Judges recorded saves.  An event has the names that existed, the logged     *)
(* operations, the outcome and what the files really hold afterwards           *)
(* (same: as before; new: the complete database in memory; other).            *)
EXTENDS SaveFS, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
C(c) == [p |-> "C02", c |-> c]
RangeSeq(s) == {s[i] : i \in DOMAIN s}
If(b, c) == IF b THEN {C(c)} ELSE {}
Post(e, x) == IF x \in DOMAIN e.post THEN e.post[x] ELSE "absent"
Abs(fs, names, x, size) == IF x \notin DOMAIN fs THEN "absent" ELSE IF x \in names /\ fs[x] = Was(x) THEN "same"
                           ELSE IF fs[x] = Written(size) THEN "new" ELSE IF fs[x].o = "dir" THEN "dir" ELSE "other"
Judge(e) ==
    LET names == RangeSeq(e.names)
        before == IF e.target \in names THEN "same" ELSE "absent"
        now == Post(e, e.target)
        ss == States(names, e.ops)
        last == ss[Len(ss)].fs
        \* the log explains what is there; otherwise only the outcome is judged
        explained == /\ e.out # "killed"
                     /\ DOMAIN e.post = DOMAIN last
                     /\ \A x \in DOMAIN last : Abs(last, names, x, e.size) = e.post[x]
        others == names \ {e.target}
    IN If(\E x \in others : Post(e, x) # "same", "a bystander was changed or removed") \union
       If(e.out = "ok" /\ now # "new", "the save returned but the target is " \o now) \union
       If(e.out = "killed" /\ now \notin {before, "new"}, "killed: the target is " \o now) \union
       If(e.out = "raised" /\ now # before, "the save raised but the target is " \o now) \union
       If(e.out \in {"ok", "raised"} /\ ~(DOMAIN e.post \subseteq names \union {e.target}), "a temporary file is left (" \o e.out \o ")") \union
       If(e.out = "ok" /\ e.must = "raise", "an error was not reported") \union
       If(e.out = "raised" /\ e.must = "ok", "the save failed without a fault") \union
       If(e.out = "raised" /\ e.must \in {"report"} /\ ~e.reported, "another error was reported") \union
       If(e.out = "ok" /\ e.must = "ok" /\ explained /\ \E i \in DOMAIN ss : ~TargetOk(ss[i].fs, names, e.target, e.size), "a moment at which the target is neither old nor new") \union
       If(e.out = "ok" /\ e.must = "ok" /\ explained /\ \E i \in DOMAIN ss : ~BystandersOk(ss[i].fs, names, e.target), "a moment at which a bystander is changed") \union
       If(e.next # "" /\ e.next # "ok", "a later save: " \o e.next)
VARIABLES l, fails
Init == l = 1 /\ fails = <<>>
Next == /\ l <= Len(Trace)
        /\ fails' = fails \o SetToSeq({[l |-> l, p |-> f.p, c |-> f.c] : f \in Judge(Trace[l])})
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, fails>>
View == l
Report == l <= Len(Trace) \/ PrintT("FAILS " \o ToJson([n |-> Len(Trace), fails |-> fails]))
=============================================================================
