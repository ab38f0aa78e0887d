----------------------------- MODULE VaultTrace -----------------------------
(* Validates recorded histories of real sessions and files against Vault.   *)
EXTENDS Vault, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, fails
vars == <<l, st, fails>>

C(c, x, k) == [c |-> c, x |-> x, k |-> k]
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
InWin(ev, t) == t # <<>> /\ Le(ev.t0, t) /\ Le(t, ev.t1)

DiffFile(n, e, g) == {C("file", n, k) : k \in {j \in DOMAIN e : e[j] # g[j]}}
\* tk, p and k0 of a session are not observable; everything else is
DiffSess(n, e, g) == {C("sess", n, k) : k \in {j \in DOMAIN g \cap DOMAIN e : e[j] # g[j]}}
Diff(e, g) ==
    {C("file", n, "lost") : n \in DOMAIN e.fs \ DOMAIN g.fs} \union
    {C("file", n, "extra") : n \in DOMAIN g.fs \ DOMAIN e.fs} \union
    UNION {DiffFile(n, e.fs[n], g.fs[n]) : n \in DOMAIN e.fs \cap DOMAIN g.fs} \union
    {C("sess", n, "set") : n \in (DOMAIN e.ss \ DOMAIN g.ss) \union (DOMAIN g.ss \ DOMAIN e.ss)} \union
    UNION {DiffSess(n, e.ss[n], g.ss[n]) : n \in DOMAIN e.ss \cap DOMAIN g.ss}

Check(ev, e) ==      \* e: expected state
    LET g == ev.post
        tk(p, pw, key) == LET i == p \o "|" \o pw \o "|" \o key IN IF i \in DOMAIN ev.t THEN ev.t[i] ELSE "unknown " \o i
        out == Out(st, ev, tk)
    IN (IF ev.res \notin out THEN {C("outcome", ev.res, ev.op)} ELSE {}) \union
       Diff(e, g) \union
       {C("stray", ev.stray[i], "file") : i \in DOMAIN ev.stray} \union
       (IF ev.op = "savestream" /\ ev.res = "ok" THEN DiffFile("stream", Written(st.kfs, st.ss[ev.s], ev.tk, tk), ev.out) ELSE {}) \union
       \* the transformed key a session reports is the one of the file as it was opened
       {C("report", n, "transformed_key") : n \in {m \in DOMAIN ev.rk \cap DOMAIN e.ss :
            e.ss[m].open /\ e.ss[m].k0 # "?" /\ ev.rk[m] # e.ss[m].k0}} \union
       (IF ev.op = "create" /\ ev.res = "ok" /\ ~(ev.empty /\ InWin(ev, g.ss[ev.s].mkc)) THEN {C("blank", ev.s, "not empty")} ELSE {})

\* the free choices, taken from the logged state
NoFile == [k |-> "", b |-> "", mkc |-> <<>>, p |-> "", r |-> ""]
Choice(ev) ==
    LET g == ev.post
        s == IF ev.s \in DOMAIN g.ss THEN g.ss[ev.s] ELSE [b |-> "", mkc |-> <<>>, r |-> ""]
    IN [now |-> IF InWin(ev, s.mkc) THEN s.mkc ELSE <<-9>>, b |-> s.b, r |-> s.r,
        blank |-> ev.blank.b, blankp |-> ev.blank.p, blankr |-> ev.blank.r,
        file |-> IF ev.op = "plant" /\ ev.f \in DOMAIN g.fs THEN g.fs[ev.f] ELSE NoFile]
Expected(ev) ==
    LET tk(p, pw, key) == LET i == p \o "|" \o pw \o "|" \o key IN IF i \in DOMAIN ev.t THEN ev.t[i] ELSE "unknown " \o i
        out == Out(st, ev, tk)
        \* when an outcome was not permitted, compare with the state the specification demands
    IN IF ev.res \in out THEN After(st, ev, ev.res, Choice(ev), tk)
       ELSE IF out = {"ok"} THEN st ELSE After(st, ev, "none", Choice(ev), tk)

Init == l = 1 /\ st = [fs |-> <<>>, kfs |-> <<>>, ss |-> <<>>] /\ fails = <<>>
Resync(e, g) ==      \* continue from what was observed, keeping what is inferred
    [fs |-> g.fs, kfs |-> e.kfs,
     ss |-> [n \in DOMAIN g.ss |->
        LET o == g.ss[n]
            m == IF n \in DOMAIN e.ss THEN e.ss[n] ELSE [tk |-> "none", p |-> "", k0 |-> "?"]
        IN [f |-> o.f, pw |-> o.pw, kf |-> o.kf, b |-> o.b, mkc |-> o.mkc, r |-> o.r, open |-> o.open,
            tk |-> m.tk, p |-> m.p, k0 |-> m.k0]]]
Next ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN
       IF ev.op = "init"
       THEN st' = [fs |-> ev.post.fs, kfs |-> ev.kfs, ss |-> <<>>] /\ fails' = fails
       ELSE LET e == Expected(ev)
            IN /\ st' = Resync(e, ev.post)
               /\ fails' = fails \o SetToSeq({[l |-> l, op |-> ev.op, res |-> ev.res, f |-> f] : f \in Check(ev, e)})
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Report == l <= Len(Trace) \/ PrintT("FAILS " \o ToJson([n |-> Len(Trace), fails |-> fails]))
=============================================================================
