------------------------------ MODULE KPCoreMC ------------------------------
(***************************************************************************)
(* Exhaustive exploration of KPCore for small constants.  Checks the design  *)
(* properties below in every reachable state / on every transition, and      *)
(* prints every transition (shortest call sequence to its source state plus  *)
(* the call) for replay on the real library.                                 *)
(***************************************************************************)
EXTENDS KPCore, Json

CONSTANTS OPS,      \* names of the operations explored
          MaxE, MaxG, MaxB, MaxA, MaxH,   \* entries, groups (beside the root), binaries, attachments ever created; snapshots
          MaxLen,   \* length of call sequences
          VALS, KEYS,
          START,     \* initial tree: 0 empty, 1 one group with two entries around it, 2 with an existing recycle bin,
                    \* 3 as another program may write it: an empty password and OTP secret that are not protected, an entry without them
          EMIT      \* print the transitions

VARIABLES db, path, bind
vars == <<db, path, bind>>

T0 == <<1, 0, 0>>
NoT == [c |-> T0, m |-> T0, a |-> T0, x |-> T0, e |-> "False"]
G0(u, kids) == [u |-> u, name |-> "g", notes |-> "", icon |-> "", t |-> NoT, kids |-> kids, o |-> ""]
E0(u) == [u |-> u, f |-> [k \in {"Title", "UserName", "Password"} |-> Fld("", k = "Password")], tags |-> <<>>, icon |-> "", ae |-> "True", as |-> "",
       aw |-> "", t |-> NoT, att |-> <<>>, hist |-> <<>>, o |-> ""]
E3(u) == [E0(u) EXCEPT !.f = [k \in {"Title", "UserName", "Password", "otp"} |-> Fld("", k = "UserName")]]
E4(u) == [E0(u) EXCEPT !.f = [k \in {"Title"} |-> Fld("", FALSE)]]
M0 == [name |-> "", desc |-> "", user |-> "", mkc |-> T0, force |-> "-1", rec |-> "-1", o |-> ""]
GN(i) == "g" \o ToString(i)
EN(i) == "e" \o ToString(i)
Base(g, e, rb) == [v |-> 4, root |-> "g0", g |-> g, e |-> e, bins |-> <<>>, bp |-> [k |-> TRUE, s |-> <<>>], rb |-> rb, m |-> M0, dups |-> <<>>]
InitDb == CASE START = 0 -> Base("g0" :> G0("g0", <<>>), <<>>, "z")
            [] START = 1 -> Base(("g0" :> G0("g0", <<"e1", "g1", "e2">>)) @@ ("g1" :> G0("g1", <<>>)), ("e1" :> E0("e1")) @@ ("e2" :> E0("e2")), "z")
            [] START = 2 -> Base(("g0" :> G0("g0", <<"g1", "e1", "g2">>)) @@ ("g1" :> G0("g1", <<>>)) @@ ("g2" :> G0("g2", <<"e2">>)), ("e1" :> E0("e1")) @@ ("e2" :> E0("e2")), "g1")
            [] START = 3 -> Base("g0" :> G0("g0", <<"e1", "e2">>), ("e1" :> E3("e1")) @@ ("e2" :> E4("e2")), "z")

\* elements created so far, from the call sequence
Created(p, ops) == Len(SelectSeq(p, LAMBDA ev : ev.op \in ops))
NE(p) == (IF START = 0 THEN 0 ELSE 2) + Created(p, {"add_entry"})
NG(p) == (IF START = 2 THEN 2 ELSE IF START = 1 THEN 1 ELSE 0) +
         Len(SelectSeq(p, LAMBDA ev : ev.op = "add_group" \/ (ev.op \in {"trash_e", "trash_g"} /\ ev.a.new # "")))
NA(p) == Created(p, {"add_att"})
NB(p) == Created(p, {"add_bin"})

Ev(op, a) == [op |-> op, a |-> a, bad |-> ""]
EntryArgs(d, new) == [d |-> d, title |-> "", username |-> "", password |-> "", url |-> "", notes |-> "", otp |-> "", tags |-> <<>>,
                      icon |-> "", exp |-> <<>>, force |-> TRUE, tnone |-> TRUE, unone |-> TRUE, new |-> new, u |-> new]
Es == DOMAIN db.e
Gs == DOMAIN db.g
NewG == GN(NG(path) + 1)
If(op, S) == IF op \in OPS THEN S ELSE {}
Events ==
    If("add_group", IF NG(path) < MaxG THEN {Ev("add_group", [d |-> d, name |-> "g", notes |-> "", icon |-> "", new |-> NewG, u |-> NewG]) : d \in Gs} ELSE {})
    \union If("add_entry", IF NE(path) < MaxE THEN {Ev("add_entry", EntryArgs(d, EN(NE(path) + 1))) : d \in Gs} ELSE {})
    \union If("del_e", {Ev("del_e", [x |-> x]) : x \in Es})
    \union If("del_g", {Ev("del_g", [x |-> x]) : x \in Gs \ {db.root}})
    \union If("move_e", {Ev("move_e", [x |-> x, d |-> d]) : x \in Es, d \in Gs})
    \union If("move_g", {Ev("move_g", [x |-> x, d |-> d]) : x \in Gs \ {db.root}, d \in Gs})
    \union If("append", ({Ev("append", [xs |-> <<x, y>>, d |-> d]) : x \in Es, y \in Es, d \in Gs} \ {Ev("append", [xs |-> <<x, x>>, d |-> d]) : x \in Es, d \in Gs})
                        \union {Ev("append", [xs |-> <<x, y>>, d |-> d]) : x \in Es, y \in Gs, d \in Gs})
    \union If("reindex", {Ev("reindex", [x |-> x, i |-> i]) : x \in Es, i \in 0..2})
    \union If("trash_e", IF BinExists(db) \/ NG(path) < MaxG
                         THEN {Ev("trash_e", [x |-> x, new |-> IF BinExists(db) THEN "" ELSE NewG, u |-> NewG, binname |-> "bin"]) : x \in Es} ELSE {})
    \union If("trash_g", IF BinExists(db) \/ NG(path) < MaxG
                         THEN {Ev("trash_g", [x |-> x, new |-> IF BinExists(db) \/ x = db.root THEN "" ELSE NewG, u |-> NewG, binname |-> "bin"]) : x \in Gs} ELSE {})
    \union If("empty_g", {Ev("empty_g", [x |-> x]) : x \in Gs})
    \union If("set_f", {Ev("set_f", [x |-> x, k |-> k, v |-> v]) : x \in Es, k \in KEYS \cap Reserved, v \in VALS})
    \union If("set_c", {Ev("set_c", [x |-> x, k |-> k, v |-> v, p |-> p]) : x \in Es, k \in KEYS \ Reserved, v \in VALS, p \in BOOLEAN})
    \union If("del_c", {Ev("del_c", [x |-> x, k |-> k]) : x \in Es, k \in KEYS})
    \union If("save_hist", {Ev("save_hist", [x |-> x]) : x \in {y \in Es : Len(db.e[y].hist) < MaxH}})
    \union If("del_hist", UNION {{Ev("del_hist", [x |-> x, i |-> i - 1]) : i \in DOMAIN db.e[x].hist} : x \in Es})
    \union If("set_uuid", {Ev("set_uuid", [x |-> x, of |-> y, u |-> db.e[y].u]) : x \in Es, y \in Es})
    \union If("add_bin", IF NB(path) < MaxB THEN {Ev("add_bin", [v |-> v, p |-> TRUE]) : v \in VALS} ELSE {})
    \union If("del_bin", {Ev("del_bin", [i |-> i]) : i \in -1..Len(db.bins)})
    \union If("add_att", IF NA(path) < MaxA THEN {Ev("add_att", [x |-> x, i |-> i - 1, n |-> "a" \o ToString(NA(path) + 1)]) : x \in Es, i \in DOMAIN db.bins} ELSE {})
    \union If("del_att", UNION {{Ev("del_att", [x |-> x, i |-> i - 1]) : i \in DOMAIN db.e[x].att} : x \in Es})

Succeeds(ev) == "ok" \in Outcome(db, ev)
Init == db = InitDb /\ path = <<>> /\ bind = <<>>
Next == \E ev \in Events :
    /\ Len(path) < MaxLen
    /\ db' = IF Succeeds(ev) THEN Step(db, ev, LAMBDA id, k : T0, LAMBDA id : "") ELSE db
    /\ path' = IF Succeeds(ev) THEN Append(path, ev) ELSE path
    /\ bind' = IF ev.op = "add_att" THEN Put(bind, ev.a.n, db.bins[ev.a.i + 1]) ELSE bind
    /\ EMIT => PrintT("TR " \o ToJson([p |-> path, ev |-> ev]))
Spec == Init /\ [][Next]_vars
View == <<db, NE(path), NG(path), NA(path), NB(path)>>

\* ------------------------------------------------------------ invariants
OneTree == TreeOK(db)                                                          \* C07
NoNested == HistOK(db)                                                         \* C09
\* C20: every element is reached by every kind of way, the ways agree, and the text of the database holds each once
WaysAgree ==
    /\ {Reached(db, [by |-> "entries", x |-> "", i |-> i]) : i \in 0..(Cardinality(DOMAIN db.e) - 1)} = DOMAIN db.e
    /\ {Reached(db, [by |-> "groups", x |-> "", i |-> i]) : i \in 0..(Cardinality(DOMAIN db.g) - 1)} = DOMAIN db.g
    /\ \A x \in Ids(db) \ {db.root} :
          LET p == Reached(db, [by |-> "parent", x |-> x, i |-> 0])
              w == IF x \in DOMAIN db.e THEN "ents" ELSE "subs"
          IN \E i \in 0..(Len(db.g[p].kids) - 1) : Reached(db, [by |-> w, x |-> p, i |-> i]) = x
    /\ \A x \in DOMAIN db.e : Equal(db, Reached(db, [by |-> "uuid_e", x |-> x, i |-> 0]), x)
    /\ \A x \in DOMAIN db.g : Equal(db, Reached(db, [by |-> "uuid_g", x |-> x, i |-> 0]), x)
    /\ Len(Owners(db)) = Len(DbView(db).atts)
    /\ LET o == Outline(db, db.root, 0) IN Len(o) = Cardinality(Ids(db)) /\ {o[i].r.u : i \in DOMAIN o} = Uuids(db)
\* C10: every attachment, also in history, delivers the bytes it was attached to
Bound(att) == \A i \in DOMAIN att : Data(db, att[i]) = <<bind[att[i].n]>>
AttachmentsKeepData == \A x \in DOMAIN db.e : Bound(db.e[x].att) /\ \A i \in DOMAIN db.e[x].hist : Bound(db.e[x].hist[i].att)
\* C16: a password or OTP secret that was filled through the API is protected
PasswordsProtected == \A x \in DOMAIN db.e : \A k \in {"Password", "otp"} \cap DOMAIN db.e[x].f :
                         db.e[x].f[k].p \/ (START = 3 /\ db.e[x].f[k].v = "")

\* ------------------------------------------------------------ action properties
last == path'[Len(path')]
Called(S) == Len(path') > Len(path) /\ last.op \in S
\* C07/C12: elements disappear only by deletion, and only below the deleted element; trashing destroys nothing
NothingLost == [][Ids(db) \ Ids(db') =
                    IF Called({"del_e", "del_g"}) THEN Below(db, last.a.x)
                    ELSE IF Called({"empty_g"}) THEN Below(db, last.a.x) \ {last.a.x} ELSE {}]_vars
\* C07: elements appear only by creation, one at a time
NothingInvented == [][Ids(db') \ Ids(db) = IF Called({"add_group", "add_entry"}) \/ (Called({"trash_e", "trash_g"}) /\ last.a.new # "")
                                           THEN {last.a.new} ELSE {}]_vars
\* C07/C08/C09: an entry's own content changes only by a call addressed to it (deletion of a binary touches attachments only)
ContentOps == {"set_uuid", "set_f", "set_c", "del_c", "save_hist", "del_hist", "add_att", "del_att"}
Bare(e) == [k \in DOMAIN e \ {"att", "hist"} |-> e[k]]
ContentIsolated == [][\A x \in DOMAIN db.e \cap DOMAIN db'.e :
                        db.e[x] # db'.e[x] =>
                            \/ Called(ContentOps) /\ last.a.x = x
                            \/ Called({"del_bin"}) /\ Bare(db.e[x]) = Bare(db'.e[x])]_vars
\* C07: unmoved siblings keep their relative order
Common(s, t) == SelectSeq(s, LAMBDA k : k \in RangeOf(t))
Subject == IF ~(Len(path') > Len(path)) THEN {} ELSE
           IF last.op = "append" THEN RangeOf(last.a.xs)
           ELSE IF "x" \in DOMAIN last.a THEN {last.a.x} ELSE {}
Others(s) == SelectSeq(s, LAMBDA k : k \notin Subject)
OrderKept == [][\A g \in DOMAIN db.g \cap DOMAIN db'.g :
                  /\ Common(Others(Ents(db, g)), Ents(db', g)) = Common(Others(Ents(db', g)), Ents(db, g))
                  /\ Common(Others(Subs(db, g)), Subs(db', g)) = Common(Others(Subs(db', g)), Subs(db, g))]_vars
\* C09: snapshots are append-only except for explicit deletion; del_bin only touches their attachments
HistoryStable == [][\A x \in DOMAIN db.e \cap DOMAIN db'.e :
                      IF Called({"del_hist"}) /\ last.a.x = x THEN Len(db'.e[x].hist) = Len(db.e[x].hist) - 1
                      ELSE IF Called({"del_bin"}) THEN [i \in DOMAIN db.e[x].hist |-> [db.e[x].hist[i] EXCEPT !.att = <<>>]] =
                                                       [i \in DOMAIN db'.e[x].hist |-> [db'.e[x].hist[i] EXCEPT !.att = <<>>]]
                      ELSE IsPrefix(db.e[x].hist, db'.e[x].hist)]_vars
\* C09: a new snapshot equals the entry
SnapshotExact == [][Called({"save_hist"}) => db'.e[last.a.x].hist[Len(db'.e[last.a.x].hist)] = Snap(db.e[last.a.x])]_vars
\* C12: after trashing, the element lies in the recycle bin, which exists, once
Trashed == [][Called({"trash_e", "trash_g"}) => BinExists(db') /\ Parent(db', last.a.x) = Bin(db') /\
                                                (BinExists(db) => db'.rb = db.rb)]_vars
\* C12: root and bin are never moved by trashing
BinStays == [][Called({"trash_e", "trash_g"}) /\ BinExists(db) => Parent(db', Bin(db')) = Parent(db, Bin(db))]_vars
=============================================================================
