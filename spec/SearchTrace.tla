---------------------------- MODULE SearchTrace -----------------------------
(* Judges recorded searches: one database per event, with the queries asked.  *)
EXTENDS Search, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Judge(e) == UNION {LET x == e.qs[i] IN IF Answer(e.db, x.q) = x.res THEN {} ELSE {[p |-> "C11", c |-> x.what \o (IF x.q.rx THEN ", regex" ELSE "") \o " " \o x.crit \o ": wrong answer", i |-> i, want |-> Answer(e.db, x.q)]} : i \in DOMAIN e.qs}
VARIABLES l, fails
Init == l = 1 /\ fails = <<>>
Next == /\ l <= Len(Trace)
        /\ fails' = fails \o SetToSeq({[l |-> l, p |-> f.p, c |-> f.c, i |-> f.i, want |-> f.want] : f \in Judge(Trace[l])})
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, fails>>
View == l
Report == l <= Len(Trace) \/ PrintT("FAILS " \o ToJson([n |-> Len(Trace), fails |-> fails]))
=============================================================================
