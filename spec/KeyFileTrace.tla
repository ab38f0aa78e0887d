---------------------------- MODULE KeyFileTrace ----------------------------
(* Judges recorded uses of key files.  Event: the content, its XML parts, keys *)
(* with the result of opening databases locked with them through the file,     *)
(* the refusal, and which of the keys a database saved with the file opens to. *)
EXTENDS KeyFile, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
C(c) == [p |-> "C05", c |-> c]
Judge(e) ==
    LET sha4(k) == LET m == {i \in DOMAIN e.cand : e.cand[i].key = k} IN IF m = {} THEN <<>> ELSE e.cand[CHOOSE i \in m : TRUE].sha4
        kind == Kind(e.b, e.x)
        want == Key(e.b, e.x)
        no == Refused(e.b, e.x, sha4)
        may == MayRefuse(e.b, e.x)
        at(i) == " (" \o kind \o ", given as " \o e.cand[i].how \o ")"
    IN (IF \E i \in DOMAIN e.cand : e.cand[i].key = want THEN {} ELSE {[p |-> "H", c |-> "harness: the key is not among the candidates"]}) \union
       {C("the file does not give its key" \o at(i)) : i \in {j \in DOMAIN e.cand : ~no /\ ~may /\ e.cand[j].key = want /\ e.cand[j].res # "opened"}} \union
       {C("the file gives another key" \o at(i)) : i \in {j \in DOMAIN e.cand : ~no /\ e.cand[j].key # want /\ e.cand[j].res # "CredentialsError" /\ ~(may /\ e.cand[j].res # "opened")}} \union
       {C("a file with a wrong hash is not refused" \o at(i)) : i \in {j \in DOMAIN e.cand : no /\ e.cand[j].res = "opened"}} \union
       (IF ~no /\ e.tried /\ (e.saved = 0 \/ (e.saved > 0 /\ e.cand[e.saved].key # want)) THEN {C("saved with another key (" \o kind \o ")")} ELSE {}) \union
       (IF ~no /\ ~may /\ e.tried /\ e.saved < 0 THEN {C("cannot be used for saving (" \o kind \o ")")} ELSE {}) \union
       (IF no /\ e.tried /\ e.saved >= 0 THEN {C("saved with a refused file")} ELSE {}) \union
       (IF ~no /\ ~may /\ e.again # "" THEN {C("used again: " \o e.again)} ELSE {})
VARIABLES l, fails
Init == l = 1 /\ fails = <<>>
Next == /\ l <= Len(Trace)
        /\ fails' = fails \o SetToSeq({[l |-> l, p |-> f.p, c |-> f.c] : f \in Judge(Trace[l])})
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, fails>>
View == l
Report == l <= Len(Trace) \/ PrintT("FAILS " \o ToJson([n |-> Len(Trace), fails |-> fails]))
=============================================================================
