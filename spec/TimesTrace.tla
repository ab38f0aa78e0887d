----------------------------- MODULE TimesTrace -----------------------------
(* Judges recorded uses of times.                                              *)
EXTENDS Times, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
C(p, c) == {[p |-> p, c |-> c]}
If(b, s) == IF b THEN s ELSE {}
\* a time handed back by the API: <<>> or civil fields with an offset
Got(g) == IF g = <<>> THEN <<>> ELSE Instant(SubSeq(g, 1, 7), g[8])
P(e) == IF e.f = "credchange_date" THEN "C18" ELSE "C14"
Same(e, g, t) == g # <<>> /\ Got(g) = t
Judge(e) ==
    CASE e.k = "enc" ->
         LET want == Stored(e.v, Instant(SubSeq(e.given, 1, 7), e.given[8]))
         IN If(e.err # "", C(P(e), e.f \o " cannot be set (" \o e.err \o ")")) \union
            If(e.err = "" /\ Decode(e.v, e.text) # want, C(P(e), e.f \o " is stored as another instant")) \union
            If(e.err = "" /\ e.v = 4 /\ ~IsBin(e.text), C(P(e), e.f \o " is not stored in the encoding of the format")) \union
            If(e.err = "" /\ ~Same(e, e.got, want), C(P(e), e.f \o " is read back as another instant")) \union
            If(e.err = "" /\ e.got # <<>> /\ e.got[8] # 0, C(P(e), e.f \o " is not read back in UTC")) \union
            If(e.err = "" /\ ~Same(e, e.again, want), C(P(e), e.f \o " is read back as another instant after reopening"))
      [] e.k = "dec" ->
         LET want == Decode(e.v, e.text)
         IN If(want = Bad, C("H", "harness: text without meaning")) \union
            If(e.err # "", C(P(e), e.f \o " cannot be read from form " \o e.form \o " (" \o e.err \o ")")) \union
            If(e.err = "" /\ ~Same(e, e.got, want), C(P(e), e.f \o " is read wrongly from form " \o e.form)) \union
            If(e.err = "" /\ e.got # <<>> /\ e.got[8] # 0, C(P(e), e.f \o " is not read in UTC from form " \o e.form)) \union
            If(e.err = "" /\ ~Same(e, e.again, want), C(P(e), e.f \o " differs after saving, form " \o e.form))
      [] e.k = "exp" ->
         If(e.err # "", C("C14", "expired fails (" \o e.err \o ")")) \union
         If(e.err = "" /\ e.got # Expired(e.on, Decode(e.v, e.text), e.now), C("C14", "expired is wrong (" \o e.el \o ")")) \union
         If(e.err = "" /\ e.goton # e.on, C("C14", "expires is wrong (" \o e.el \o ")"))
      \* old, new: the time fields before and after
      [] e.k = "touch" ->
         LET now == Stored(e.v, e.now)
             want == [j \in DOMAIN e.old |-> IF j = "a" \/ (j = "m" /\ e.mod) THEN now ELSE Decode(e.v, e.old[j])]
         IN If(e.err # "", C("C14", "touch fails (" \o e.err \o ")")) \union
            UNION {If(e.err = "" /\ Decode(e.v, e.new[j]) # want[j], C("C14", "touch sets a wrong time (" \o e.el \o ", " \o j \o ")")) : j \in DOMAIN e.old}
      [] e.k = "new" ->
         LET now == Stored(e.v, e.now)
         IN If(e.err # "", C("C14", "creation fails (" \o e.err \o ")")) \union
            UNION {If(e.err = "" /\ Decode(e.v, e.new[j]) # now, C("C14", "a new " \o e.el \o " does not carry the current time (" \o j \o ")")) : j \in DOMAIN e.new}
      \* flags at a given clock
      [] e.k = "cred" ->
         LET ch == IF e.text = <<>> THEN <<>> ELSE Decode(e.v, e.text)
         IN If(e.err # "", C("C18", "the flags cannot be read (" \o e.err \o ")")) \union
            If(e.err = "" /\ e.req # Demanded(e.nreq, ch, e.now), C("C18", "credchange_required is wrong")) \union
            If(e.err = "" /\ e.rec # Demanded(e.nrec, ch, e.now), C("C18", "credchange_recommended is wrong")) \union
            If(e.err = "" /\ (e.gotreq # e.nreq \/ e.gotrec # e.nrec), C("C18", "the configured days are wrong"))
      \* a call at a given clock: the recorded time before and after, and whether the call assigns credentials
      [] e.k = "step" ->
         LET old == IF e.old = <<>> THEN <<>> ELSE Decode(e.v, e.old)
             new == IF e.new = <<>> THEN <<>> ELSE Decode(e.v, e.new)
             now == Stored(e.v, e.now)
         IN If(e.assigns /\ e.err # "", C("C18", e.op \o " fails (" \o e.err \o ")")) \union
            If(e.assigns /\ e.err = "" /\ new # now, C("C18", e.op \o " does not record the time of the change")) \union
            If((~e.assigns \/ e.err # "") /\ new # old, C("C18", e.op \o " changes the recorded time"))
VARIABLES l, fails
Init == l = 1 /\ fails = <<>>
Next == /\ l <= Len(Trace)
        /\ fails' = fails \o SetToSeq({[l |-> l, p |-> f.p, c |-> f.c] : f \in Judge(Trace[l])})
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, fails>>
View == l
Report == l <= Len(Trace) \/ PrintT("FAILS " \o ToJson([n |-> Len(Trace), fails |-> fails]))
=============================================================================
