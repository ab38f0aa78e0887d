------------------------------- MODULE SaveFS -------------------------------
(* A directory tree as seen by save(): names and what the files hold, the     *)
(* file operations, and when a directory is acceptable after a save.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Was(x) == [o |-> x, n |-> 0]            \* the content file x had before the save
Written(n) == [o |-> "w", n |-> n]      \* the first n bytes of the new database
Mixed == [o |-> "mixed", n |-> 0]
Dir == [o |-> "dir", n |-> 0]
Put(fs, a, c) == (a :> c) @@ fs
Drop(fs, a) == [x \in DOMAIN fs \ {a} |-> fs[x]]
\* st = [fs, al]: al maps names under which files are open to their present names
Now(st, a) == IF a \in DOMAIN st.al THEN st.al[a] ELSE a
Apply(st, op) ==
    LET fs == st.fs
        with(g) == [st EXCEPT !.fs = g]
        w == Now(st, op.a)
    IN IF op.r # "ok" THEN st
       ELSE CASE op.o = "open" -> IF op.a \notin DOMAIN fs THEN (IF op.c THEN with(Put(fs, op.a, Written(0))) ELSE st)
                                  ELSE IF op.t THEN with(Put(fs, op.a, Written(0))) ELSE st
              [] op.o = "write" -> IF w \notin DOMAIN fs THEN st
                                   ELSE with(Put(fs, w, IF fs[w].o = "w" THEN Written(fs[w].n + op.n) ELSE Mixed))
              [] op.o = "truncate" -> IF w \notin DOMAIN fs THEN st
                                      ELSE with(Put(fs, w, IF fs[w].o = "w" /\ op.n >= fs[w].n THEN Written(op.n) ELSE IF op.n = 0 THEN Written(0) ELSE Mixed))
              [] op.o = "rename" -> IF op.a \notin DOMAIN fs \/ op.a = op.b THEN st
                                    ELSE [fs |-> Put(Drop(fs, op.a), op.b, fs[op.a]), al |-> (op.a :> op.b) @@ st.al]
              [] op.o \in {"link", "symlink"} -> IF op.a \in DOMAIN fs THEN with(Put(fs, op.b, fs[op.a])) ELSE st
              [] op.o \in {"unlink", "rmdir"} -> with(Drop(fs, op.a))
              [] op.o = "mkdir" -> with(Put(fs, op.a, Dir))
              [] OTHER -> st
Start(names) == [fs |-> [x \in names |-> Was(x)], al |-> <<>>]
States(names, ops) == FoldLeft(LAMBDA acc, op : Append(acc, Apply(acc[Len(acc)], op)), <<Start(names)>>, ops)

\* what the target may hold while the save runs: its old content (or nothing if it was absent) or everything
TargetOk(fs, names, target, size) ==
    IF target \in DOMAIN fs THEN \/ target \in names /\ fs[target] = Was(target)
                                 \/ fs[target] = Written(size)
    ELSE target \notin names
BystandersOk(fs, names, target) == \A x \in names \ {target} : x \in DOMAIN fs /\ fs[x] = Was(x)
NoStray(fs, names, target) == DOMAIN fs \subseteq names \union {target}
=============================================================================
