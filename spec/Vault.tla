------------------------------- MODULE Vault --------------------------------
(***************************************************************************)
(* Sessions (open PyKeePass objects), database files, key files and          *)
(* credentials, and the meaning of every call that moves a database between  *)
(* memory and disk or changes credentials.                                   *)
(*                                                                           *)
(*  fs   [file name -> [k, b, mkc, p, r]]  database files that exist         *)
(*         k    transformed key that encrypts it ("junk": not a database)    *)
(*         b    content without the time of the last credential change       *)
(*         mkc  that time                                                    *)
(*         p    container parameters (version, cipher, KDF, salt, ...)       *)
(*         r    those of them that the library reports                       *)
(*  kfs  [key file name -> key it contributes]  key files that exist         *)
(*  ss   [session -> [f, pw, kf, tk, b, mkc, p, r, k0, open]]                *)
(*         k0   transformed key of the file as it was opened                 *)
(*         f    file it is attached to; pw, kf, tk credentials in force      *)
(*         tk   "none" unless the transformed key was given explicitly       *)
(*         open FALSE: opened with decrypt=False (content not available)     *)
(*                                                                           *)
(* The transformed key of credentials under parameters p is given by the     *)
(* uninterpreted function TK(p, pw, key) (operator parameter).               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VPut(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
VDrop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

KeyReadable(kfs, kf) == kf = "none" \/ (kf \in DOMAIN kfs /\ kfs[kf] # "refused")
KeyOf(kfs, kf) == IF kf = "none" THEN "none" ELSE IF kf \in DOMAIN kfs THEN kfs[kf] ELSE "missing"

\* The transformed key that credentials (pw, kf, tk) give under parameters p.
Effective(kfs, p, pw, kf, tk, TK(_, _, _)) ==
    IF tk # "none" THEN tk ELSE TK(p, pw, KeyOf(kfs, kf))

\* Permitted outcomes of opening file f with these credentials.
OpenOutcome(fs, kfs, f, pw, kf, tk, TK(_, _, _)) ==
    IF f \notin DOMAIN fs THEN {"FileNotFoundError"}
    ELSE IF fs[f].k = "junk" THEN {"HeaderChecksumError", "PayloadChecksumError", "CredentialsError", "other"} \union
                                  (IF KeyReadable(kfs, kf) THEN {} ELSE {"FileNotFoundError"})
    ELSE IF ~KeyReadable(kfs, kf) THEN (IF tk = "none" THEN {"FileNotFoundError", "other"}
                                        ELSE {"ok", "CredentialsError", "FileNotFoundError", "other"})
    ELSE IF Effective(kfs, fs[f].p, pw, kf, tk, TK) = fs[f].k THEN {"ok"} ELSE {"CredentialsError"}

\* The session after successfully reading file f.
Opened(fs, f, pw, kf, tk) ==
    [f |-> f, pw |-> pw, kf |-> kf, tk |-> tk, b |-> fs[f].b, mkc |-> fs[f].mkc, p |-> fs[f].p, r |-> fs[f].r,
     k0 |-> fs[f].k, open |-> TRUE]

\* What a save of session s writes; stk: explicitly given transformed key or "none".
Written(kfs, s, stk, TK(_, _, _)) ==
    [k |-> Effective(kfs, s.p, s.pw, s.kf, IF stk # "none" THEN stk ELSE s.tk, TK), b |-> s.b, mkc |-> s.mkc,
     p |-> s.p, r |-> s.r]

SaveOutcome(kfs, s, stk, dir) ==
    IF dir # "ok" THEN {"other", "FileNotFoundError"}
    ELSE IF ~s.open THEN {"other"}
    ELSE IF KeyReadable(kfs, s.kf) THEN {"ok"}
    ELSE IF stk # "none" \/ s.tk # "none" THEN {"ok", "FileNotFoundError", "other"} ELSE {"FileNotFoundError", "other"}

\* ---------------------------------------------------------------- transitions
\* st = [fs, kfs, ss]; ev = [op, s, f, pw, kf, tk, ...].  Free choices (content after an edit, current
\* time, external content) come from the record x.
Out(st, ev, TK(_, _, _)) ==
    CASE ev.op \in {"open", "read", "probe"} -> OpenOutcome(st.fs, st.kfs, ev.f, ev.pw, ev.kf, ev.tk, TK)
      [] ev.op = "reload" -> LET s == st.ss[ev.s] IN OpenOutcome(st.fs, st.kfs, s.f, s.pw, s.kf, s.tk, TK)
      [] ev.op = "save" -> SaveOutcome(st.kfs, st.ss[ev.s], ev.tk, "ok")
      [] ev.op = "saveas" -> SaveOutcome(st.kfs, st.ss[ev.s], ev.tk, ev.dir)
      [] ev.op = "savestream" -> SaveOutcome(st.kfs, st.ss[ev.s], ev.tk, "ok")
      [] ev.op = "create" -> IF ev.dir # "ok" THEN {"other", "FileNotFoundError"}
                             ELSE IF KeyReadable(st.kfs, ev.kf) THEN {"ok"} ELSE {"FileNotFoundError", "other"}
      [] ev.op = "peek" -> IF ev.f \notin DOMAIN st.fs THEN {"FileNotFoundError"}
                           ELSE IF st.fs[ev.f].k = "junk" THEN {"ok", "HeaderChecksumError", "PayloadChecksumError", "CredentialsError", "other"}
                           ELSE {"ok"}
      [] ev.op \in {"setpw", "setkf", "edit"} -> IF st.ss[ev.s].open THEN {"ok"} ELSE {"other"}
      [] OTHER -> {"ok"}

Do(st, ev, x, TK(_, _, _)) ==
    CASE ev.op \in {"open", "read"} -> [st EXCEPT !.ss = VPut(@, ev.s, Opened(st.fs, ev.f, ev.pw, ev.kf, ev.tk))]
      [] ev.op = "reload" -> LET s == st.ss[ev.s] IN [st EXCEPT !.ss[ev.s] = Opened(st.fs, s.f, s.pw, s.kf, s.tk)]
      [] ev.op = "save" -> LET s == st.ss[ev.s] IN [st EXCEPT !.fs = VPut(@, s.f, Written(st.kfs, s, ev.tk, TK))]
      [] ev.op = "saveas" -> LET s == st.ss[ev.s] IN [st EXCEPT !.fs = VPut(@, ev.f, Written(st.kfs, s, ev.tk, TK))]
      [] ev.op = "create" ->
            LET s == [f |-> ev.f, pw |-> ev.pw, kf |-> ev.kf, tk |-> ev.tk, b |-> x.blank, mkc |-> x.now, p |-> x.blankp, r |-> x.blankr,
                      k0 |-> "?", open |-> TRUE]
            IN [st EXCEPT !.ss = VPut(@, ev.s, s), !.fs = VPut(@, ev.f, Written(st.kfs, s, "none", TK))]
      [] ev.op = "peek" -> [st EXCEPT !.ss = VPut(@, ev.s, [f |-> ev.f, pw |-> "none", kf |-> "none", tk |-> "none", b |-> "", mkc |-> <<>>,
                                                             p |-> st.fs[ev.f].p,
                                                             r |-> IF st.fs[ev.f].k = "junk" THEN x.r ELSE st.fs[ev.f].r,
                                                             k0 |-> "?", open |-> FALSE])]
      [] ev.op = "setpw" -> [st EXCEPT !.ss[ev.s].pw = ev.pw, !.ss[ev.s].tk = "none", !.ss[ev.s].mkc = x.now, !.ss[ev.s].k0 = "?"]
      [] ev.op = "setkf" -> [st EXCEPT !.ss[ev.s].kf = ev.kf, !.ss[ev.s].tk = "none", !.ss[ev.s].mkc = x.now, !.ss[ev.s].k0 = "?"]
      [] ev.op = "edit" -> [st EXCEPT !.ss[ev.s].b = x.b]
      [] ev.op = "drop" -> [st EXCEPT !.ss = VDrop(@, ev.s)]
      [] ev.op = "plant" -> [st EXCEPT !.fs = VPut(@, ev.f, x.file)]        \* another program writes the file
      [] ev.op = "rm" -> [st EXCEPT !.fs = VDrop(@, ev.f)]
      [] ev.op = "kfwrite" -> [st EXCEPT !.kfs = VPut(@, ev.kf, ev.key)]
      [] ev.op = "kfrm" -> [st EXCEPT !.kfs = VDrop(@, ev.kf)]
      [] ev.op \in {"probe", "savestream"} -> st

After(st, ev, res, x, TK(_, _, _)) == IF res = "ok" THEN Do(st, ev, x, TK) ELSE st
=============================================================================
