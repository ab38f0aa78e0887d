------------------------------ MODULE VaultMC -------------------------------
(* Exhaustive exploration of Vault for small constants; every transition is  *)
(* printed for replay on real sessions and files.                            *)
EXTENDS Vault, Json

CONSTANTS OPS, FILES, SESS, PWS, KFS, TKS, MaxLen, MaxEdit, EMIT
VARIABLES st, path, last
vars == <<st, path, last>>

TK(p, pw, key) == p \o "|" \o pw \o "|" \o key
\* initially: file a exists, encrypted with password "w1"; the key files exist
File0 == [k |-> TK("p1", "w1", "none"), b |-> "b0", mkc |-> <<0>>, p |-> "p1", r |-> "r1"]
Init == st = [fs |-> ("fa" :> File0), kfs |-> [k \in KFS \ {"none"} |-> "key" \o k], ss |-> <<>>] /\ path = <<>> /\ last = [op |-> "none"]

NEdit == Len(SelectSeq(path, LAMBDA ev : ev.op \in {"edit", "create", "setpw", "setkf"}))
E(op, s, f, pw, kf, tk) == [op |-> op, s |-> s, f |-> f, pw |-> pw, kf |-> kf, tk |-> tk, dir |-> "ok"]
If(op, S) == IF op \in OPS THEN S ELSE {}
Live == DOMAIN st.ss
TKof(S) == {"none"} \union S
FileTKs == {st.fs[f].k : f \in DOMAIN st.fs} \cap TKS
Events ==
    If("open", {E("open", s, f, pw, kf, tk) : s \in SESS \ Live, f \in FILES, pw \in PWS, kf \in KFS, tk \in {"none"}})
    \union If("opentk", {E("open", s, f, "none", "none", tk) : s \in SESS \ Live, f \in FILES, tk \in TKS})
    \union If("read", {E("read", s, f, pw, kf, "none") : s \in Live, f \in FILES, pw \in PWS, kf \in KFS})
    \union If("reload", {E("reload", s, "", "", "", "none") : s \in Live})
    \union If("save", {E("save", s, "", "", "", "none") : s \in Live})
    \union If("savetk", {E("save", s, "", "", "", tk) : s \in Live, tk \in TKS})
    \union If("saveas", {E("saveas", s, f, "", "", "none") : s \in Live, f \in FILES})
    \union If("setpw", IF NEdit < MaxEdit THEN {E("setpw", s, "", pw, "", "none") : s \in Live, pw \in PWS} ELSE {})
    \union If("setkf", IF NEdit < MaxEdit THEN {E("setkf", s, "", "", kf, "none") : s \in Live, kf \in KFS} ELSE {})
    \union If("edit", IF NEdit < MaxEdit THEN {E("edit", s, "", "", "", "none") : s \in Live} ELSE {})
    \union If("peek", {E("peek", s, f, "none", "none", "none") : s \in SESS \ Live, f \in FILES})
    \union If("rm", {E("rm", "", f, "", "", "none") : f \in DOMAIN st.fs})
    \union If("drop", {E("drop", s, "", "", "", "none") : s \in Live})

X == [now |-> <<NEdit + 1>>, b |-> "b" \o ToString(NEdit + 1), blank |-> "blank", blankp |-> "p0", blankr |-> "r0", r |-> "r1", file |-> File0]
Next == \E ev \in Events :
    /\ Len(path) < MaxLen
    /\ LET ok == "ok" \in Out(st, ev, TK) IN
       /\ st' = After(st, ev, IF ok THEN "ok" ELSE "err", X, TK)
       /\ path' = IF ok THEN Append(path, ev) ELSE path
       /\ last' = ev
    /\ EMIT => PrintT("TR " \o ToJson([p |-> path, ev |-> ev]))
Spec == Init /\ [][Next]_vars
View == <<st, NEdit>>

\* ---------------------------------------------------------------- properties
\* C03: every file opens with exactly the credentials whose transformed key encrypts it
OnlyRightCredentials == \A f \in DOMAIN st.fs : \A pw \in PWS, kf \in KFS :
    ("ok" \in OpenOutcome(st.fs, st.kfs, f, pw, kf, "none", TK)) <=> (TK(st.fs[f].p, pw, KeyOf(st.kfs, kf)) = st.fs[f].k)
\* C17: a call on one session changes only that session and at most the file it targets
Isolated == [][/\ \A s \in DOMAIN st.ss \cap DOMAIN st'.ss : st.ss[s] # st'.ss[s] => last'.s = s
               /\ \A f \in DOMAIN st.fs \cap DOMAIN st'.fs : st.fs[f] # st'.fs[f] =>
                    \/ last'.op = "save" /\ st.ss[last'.s].f = f
                    \/ last'.op = "saveas" /\ last'.f = f]_vars
\* C03: assigning credentials touches no file
NotEarlier == [][last'.op \in {"setpw", "setkf", "edit"} => st.fs = st'.fs]_vars
\* C17: reload shows the file
ReloadShows == [][last'.op = "reload" /\ st.ss # st'.ss => LET s == st'.ss[last'.s] IN s.b = st.fs[s.f].b /\ s.mkc = st.fs[s.f].mkc]_vars
\* C01/C03: what was saved can be opened again by the same credentials and shows the same content
SaveReopens == [][last'.op = "save" /\ st # st' =>
                    LET s == st.ss[last'.s] IN
                    /\ st'.fs[s.f].b = s.b
                    /\ last'.tk = "none" => "ok" \in OpenOutcome(st'.fs, st'.kfs, s.f, s.pw, s.kf, s.tk, TK)]_vars
\* C19: container parameters never change
ParamsKept == [][\A f \in DOMAIN st.fs \cap DOMAIN st'.fs : st.fs[f].p = st'.fs[f].p]_vars
=============================================================================
