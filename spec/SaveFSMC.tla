------------------------------ MODULE SaveFSMC ------------------------------
(* The save protocol, one file operation per step, with a crash or one failing *)
(* operation anywhere (a write may be cut in half).                           *)
EXTENDS SaveFS
CONSTANTS W,            \* number of writes
          PROTO,        \* "rename" is what pykeepass does; the others show that the invariants bite
          EXISTS        \* whether the target exists before
Target == "db"
Names == {"other", "db.tmp"} \union (IF EXISTS THEN {Target} ELSE {})
Tmp == IF PROTO = "fixedname" THEN "db.tmp" ELSE "uuid"
VARIABLES st, pc, res, budget
vars == <<st, pc, res, budget>>
Op(o, a, b, n) == [o |-> o, a |-> a, b |-> b, n |-> n, c |-> TRUE, t |-> TRUE, r |-> "ok"]
Out == IF PROTO = "inplace" THEN Target ELSE Tmp
Prog == <<Op("open", Out, "", 0)>> \o [i \in 1..W |-> Op("write", Out, "", 2)] \o <<Op("close", Out, "", 0)>>
        \o (IF PROTO = "unlinkfirst" THEN <<Op("unlink", Target, "", 0)>> ELSE <<>>)
        \o (IF PROTO = "inplace" THEN <<>> ELSE <<Op("rename", Tmp, Target, 0)>>)
Size == 2 * W
\* the copy that replaces a rename that failed (the error of the rename was the one fault there is)
Copy == <<Op("open", Target, "", 0)>> \o [i \in 1..W |-> Op("write", Target, "", 2)] \o <<Op("close", Target, "", 0), Op("unlink", Tmp, "", 0)>>
VARIABLE prog
Init == st = Start(Names) /\ pc = 1 /\ res = "running" /\ budget = 1 /\ prog = Prog
Step == /\ res = "running" /\ pc <= Len(prog)
        /\ st' = Apply(st, prog[pc]) /\ pc' = pc + 1 /\ UNCHANGED <<res, budget, prog>>
Return == /\ res = "running" /\ pc > Len(prog) /\ res' = "ok" /\ UNCHANGED <<st, pc, budget, prog>>
Crash == /\ res = "running" /\ budget > 0 /\ budget' = 0 /\ res' = "killed"
         /\ \/ st' = st
            \/ pc <= Len(prog) /\ prog[pc].o = "write" /\ st' = Apply(st, [prog[pc] EXCEPT !.n = 1])
         /\ UNCHANGED <<pc, prog>>
\* a failed operation: clean up and report, or the copy in place of a rename
Cleanup == IF PROTO = "leaves" THEN st ELSE [st EXCEPT !.fs = Drop(@, Out)]
Fail == /\ res = "running" /\ budget > 0 /\ pc <= Len(prog) /\ budget' = 0
        /\ IF prog[pc].o = "rename" THEN prog' = Copy /\ pc' = 1 /\ UNCHANGED <<st, res>>
           ELSE st' = Cleanup /\ res' = "raised" /\ UNCHANGED <<pc, prog>>
Next == Step \/ Return \/ Crash \/ Fail
Spec == Init /\ [][Next]_<<vars, prog>>
Copying == prog # Prog
Atomic == Copying \/ TargetOk(st.fs, Names, Target, Size)
Bystanders == BystandersOk(st.fs, Names, Target)
Returned == res = "ok" => /\ Target \in DOMAIN st.fs /\ st.fs[Target] = Written(Size) /\ NoStray(st.fs, Names, Target)
Raised == res = "raised" => st.fs = Start(Names).fs
=============================================================================
