----------------------------- MODULE DerefTrace -----------------------------
(* Judges recorded dereferencings: entries and (text, result) pairs.          *)
EXTENDS Deref, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* a text that becomes a reference only by what is put next to it: nothing is claimed
Accident(r) == r.k = "text" /\ \E i \in DOMAIN r.t : RefEnd(r.t, i) # 0
\* of several references all but one to a UUID may turn out empty: text or UUID, the digits are the same
Same(want, res) == want = res \/ (want.k = "text" /\ res.k = "uuid" /\ want.t = res.t)
Judge(e) ==
    UNION {LET x == e.qs[i]
               s == IF x.what = "text" THEN x.s ELSE Ref(e.E[x.e], x.w)
               want == Deref(e.E, s)
           IN (IF x.what = "ref" /\ x.s # s THEN {[p |-> "C13", c |-> "another reference was created", i |-> i, want |-> Txt(s)]} ELSE {}) \union
              (IF Same(want, x.res) \/ Accident(want) THEN {} ELSE {[p |-> "C13", c |-> x.what \o " yields " \o x.res.k \o (IF x.res.k = want.k THEN ", another one" ELSE ", not " \o want.k), i |-> i, want |-> want]})
           : i \in DOMAIN e.qs}
VARIABLES l, fails
Init == l = 1 /\ fails = <<>>
Next == /\ l <= Len(Trace)
        /\ fails' = fails \o SetToSeq({[l |-> l, p |-> f.p, c |-> f.c, i |-> f.i, want |-> f.want] : f \in Judge(Trace[l])})
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, fails>>
View == l
Report == l <= Len(Trace) \/ PrintT("FAILS " \o ToJson([n |-> Len(Trace), fails |-> fails]))
=============================================================================
