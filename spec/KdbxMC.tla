------------------------------ MODULE KdbxMC --------------------------------
(* All damages of an abstract KDBX4 file by up to MaxFaults faults: none is   *)
(* accepted silently.  Single faults are printed with the reports allowed for *)
(* them; the harness applies each to the bytes of real files.  The            *)
(* configurations are printed too.                                            *)
EXTENDS Kdbx, Json
CONSTANTS NF, NB, MaxFaults, EMIT
VARIABLES f, fl, wf
vars == <<f, fl, wf>>
F0 == File(NF, NB)
Done(op, i, j) == fl' = Append(fl, [op |-> op, i |-> i, j |-> j])
HdrCell(i) == i \in 2..(NF + 2)
Init == f = F0 /\ fl = <<>> /\ wf = TRUE
Whole == Len(f) = Len(F0)
Next ==
    /\ Len(fl) < MaxFaults
    /\ \/ \E i \in DOMAIN f : /\ f[i].v = "ok" /\ ~(f[i].k = "data" /\ f[i].o = NB)     \* the final block has no data
                              /\ f' = Alter(f, i)
                              /\ wf' \in (IF HdrCell(i) THEN {wf, FALSE} ELSE {wf})
                              /\ Done("alter", i, 0)
       \/ \E i \in DOMAIN f : f[i].v # "short" /\ f' = Cut(f, i) /\ wf' = wf /\ Done("cut", i, 0)
       \/ Whole /\ \E j \in 0..NB : f' = DropBlock(f, NF, j) /\ wf' = wf /\ Done("drop", j, 0)
       \/ Whole /\ \E j \in 0..(NB - 1) : f' = RepeatBlock(f, NF, j) /\ wf' = wf /\ Done("repeat", j, 0)
       \/ Whole /\ \E j, k \in 0..NB : j < k /\ f' = SwapBlocks(f, NF, j, k) /\ wf' = wf /\ Done("swap", j, k)
       \/ \E i \in DOMAIN f : HdrCell(i) /\ Len(f) > NF + 3 /\ f[i].v = "ok" /\ f[NF + 3].v = "ok"
                              /\ f' = Forge(f, i, NF) /\ wf' \in {wf, FALSE} /\ Done("forge", i, 0)
Spec == Init /\ [][Next]_vars
Restored == f = F0
Findings == Reader4(f, NF, NB, wf)
NoSilentAccept == Restored \/ "content" \notin Findings
Accepted == Restored /\ wf => Findings = {"content"}
Documented == UNION {Report4(x) : x \in Findings} \subseteq Errors \union {"content"}
Emit == ~EMIT \/ Len(fl) # 1 \/ PrintT("FT " \o ToJson([fault |-> fl[1], cell |-> IF fl[1].op \in {"alter", "cut", "forge"} THEN F0[fl[1].i].k ELSE "block",
                                             wf |-> wf, find |-> Findings, rep |-> UNION {Report4(x) : x \in Findings}]))
EmitCfg == ~EMIT \/ fl # <<>> \/ \A c \in Configs : PrintT("CF " \o ToJson(c))
=============================================================================
