------------------------------ MODULE SearchMC ------------------------------
(* Small databases and all query forms on them: laws every search obeys.  The *)
(* query forms are printed for the harness to fill with values.               *)
EXTENDS Search, Json
CONSTANTS EMIT, NE
EntryFields == {"title", "username", "password", "url", "notes", "uuid", "tags", "string", "autotype_sequence", "autotype_window", "autotype_enabled", "otp"}
GroupFields == {"name", "uuid", "notes"}
AttFields == {"id", "filename"}
Fields(k) == CASE k = "entry" -> EntryFields [] k = "group" -> GroupFields [] k = "att" -> AttFields
Forms == UNION {[kind : {k}, crit : {s \in SUBSET Fields(k) : Cardinality(s) <= 2}, rx : BOOLEAN, ic : BOOLEAN, scope : {"all", "group", "leaf"}, rec : BOOLEAN, hist : BOOLEAN, first : BOOLEAN] : k \in {"entry", "group", "att"}}
Good(f) == /\ f.ic => f.rx
           /\ f.scope = "all" => f.rec
           /\ ~f.rec => ~f.hist
PathForms == [kind : {"entry", "group"}, len : 0..3, rx : BOOLEAN, ic : BOOLEAN]
\* small databases: a tree of NE elements below the root, texts over two letters
Lit(t) == [t |-> t]
Chr(c) == [o |-> "chr", c |-> c]
Exactly(t) == [o |-> "cat", a |-> <<[o |-> "bol"]>> \o [i \in DOMAIN t |-> Chr(t[i])] \o <<[o |-> "eol"]>>]
Texts == {<<>>, <<97>>, <<65>>, <<97, 97>>}
VARIABLES db, q
Elem(kind, par, hist, t) == [kind |-> kind, par |-> par, hist |-> hist, uuid |-> "u", strings |-> <<>>, windows |-> <<>>, tags |-> <<>>, hastags |-> FALSE,
                             fields |-> <<[k |-> IF kind = "group" THEN "name" ELSE "title", v |-> t]>>]
Base == <<Elem("group", 0, FALSE, <<114>>)>>
Fits(d, e) == /\ e.par \in DOMAIN d
              /\ IF e.hist THEN e.kind = "entry" /\ d[e.par].kind = "entry" /\ ~d[e.par].hist ELSE d[e.par].kind = "group"
              \* document order: the parent is on the path of the last element
              /\ e.par = Len(d) \/ e.par \in Above(d, Len(d))
Init == db = Base /\ q = [stop |-> FALSE]
Grow == /\ ~q.stop /\ Len(db) <= NE /\ q' = q
        /\ \E k \in {"group", "entry"}, p \in DOMAIN db, h \in BOOLEAN, t \in Texts : Fits(db, Elem(k, p, h, t)) /\ db' = Append(db, Elem(k, p, h, t))
Ask == /\ ~q.stop /\ db' = db
       /\ \E k \in {"group", "entry"}, t \in Texts \ {<<>>}, sc \in 0..Len(db), rec, hist \in BOOLEAN :
            /\ sc # 0 => db[sc].kind = "group"
            /\ sc = 0 => rec
            /\ q' = [stop |-> TRUE, kind |-> k, rx |-> FALSE, ic |-> FALSE, scope |-> sc, rec |-> rec, hist |-> hist, first |-> FALSE, bypath |-> FALSE, path |-> <<>>,
                     crit |-> <<[f |-> IF k = "group" THEN "name" ELSE "title", v |-> Lit(t)]>>]
Next == Grow \/ Ask
Spec == Init /\ [][Next]_<<db, q>>
A(x) == Answer(db, x).ids
S(x) == {A(x)[i] : i \in DOMAIN A(x)}
None(x) == [x EXCEPT !.crit = <<>>]
Laws == q.stop =>
    /\ A(q) = SortSeq(A(q), <)                                                       \* document order
    /\ S(q) \subseteq S(None(q))                                                     \* a criterion only narrows
    /\ A([q EXCEPT !.first = TRUE]) = Head1(A(q))
    /\ S(q) \subseteq S([q EXCEPT !.hist = TRUE])
    /\ q.hist => S(q) \ S([q EXCEPT !.hist = FALSE]) = {i \in S(q) : InHistory(db, i)}
    /\ (~q.rec) => S(q) \subseteq S([q EXCEPT !.rec = TRUE])
    /\ q.scope # 0 => S(q) \subseteq S([q EXCEPT !.scope = 0, !.rec = TRUE])
    \* a literal is the expression that matches exactly it, and ignoring case finds more
    /\ LET r == [q EXCEPT !.rx = TRUE, !.crit = <<[f |-> q.crit[1].f, v |-> [x |-> Exactly(q.crit[1].v.t)]]>>]
       IN S(r) = S(q) /\ S(r) \subseteq S([r EXCEPT !.ic = TRUE])
    \* every non-history element below the root is found by exactly one scope without recursion
    /\ (q.scope = 0 /\ ~q.hist) => S(None(q)) = UNION ({S([None(q) EXCEPT !.scope = g, !.rec = FALSE]) : g \in {i \in DOMAIN db : db[i].kind = "group"}}
                                                       \union {IF q.kind = "group" THEN {1} ELSE {}})
Emit == ~EMIT \/ q.stop \/ Len(db) > 1 \/ ((\A f \in {g \in Forms : Good(g)} : PrintT("QF " \o ToJson(f))) /\ (\A f \in {g \in PathForms : g.ic => g.rx} : PrintT("QP " \o ToJson(f))))
=============================================================================
