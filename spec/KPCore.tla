------------------------------- MODULE KPCore -------------------------------
(***************************************************************************)
(* The content of one KeePass database and the meaning of every public      *)
(* pykeepass call that changes or shows it.                                  *)
(*                                                                           *)
(* A database db is a record                                                 *)
(*   v     3 or 4 (major format version: decides the time resolution)        *)
(*   root  id of the root group                                              *)
(*   g     [group id -> [u, name, notes, icon, t, kids, o]]                  *)
(*   e     [entry id -> [u, f, tags, icon, ae, as, aw, t, att, hist, o]]     *)
(*   bins  sequence of binary contents; a binary's id is its index - 1       *)
(*   bp    their protection flags as requested, bp.s if bp.k (known)         *)
(*   rb    UUID recorded as recycle bin (may name no existing group)         *)
(*   m     [name, desc, user, mkc, force, rec, o]  database settings         *)
(* Ids identify elements; u is an element's UUID, which may be reassigned,   *)
(* also to one that another element has.  kids is the sequence of ids of     *)
(* subgroups and entries in document order.  f maps a field name to          *)
(* [v |-> text, p |-> protected].  att is a sequence of                      *)
(* [n |-> file name, r |-> binary id].  hist is a sequence of snapshots      *)
(* (entry records without hist, with the id they had).  Times are            *)
(* <<day, second, microsecond>> since 0001-01-01 UTC, <<>> when absent.      *)
(* o stands for all XML content that pykeepass does not interpret.           *)
(* Texts are opaque tokens; "" is the empty/absent text.                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, SequencesExt

Reserved == {"Title", "UserName", "Password", "URL", "Notes", "otp"}

Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
RangeOf(s) == {s[i] : i \in DOMAIN s}
RemoveAt1(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]

Ents(db, g) == SelectSeq(db.g[g].kids, LAMBDA k : k \in DOMAIN db.e)
Subs(db, g) == SelectSeq(db.g[g].kids, LAMBDA k : k \in DOMAIN db.g)
Ids(db) == DOMAIN db.g \union DOMAIN db.e

HasParent(db, x) == \E g \in DOMAIN db.g : x \in RangeOf(db.g[g].kids)
Parent(db, x) == CHOOSE g \in DOMAIN db.g : x \in RangeOf(db.g[g].kids)

RECURSIVE Below(_, _)
Below(db, x) ==      \* x and everything underneath it
    IF x \in DOMAIN db.g
    THEN {x} \union UNION {Below(db, k) : k \in RangeOf(db.g[x].kids)}
    ELSE {x}

RECURSIVE Ancestors(_, _)
Ancestors(db, x) == IF HasParent(db, x) THEN {Parent(db, x)} \union Ancestors(db, Parent(db, x)) ELSE {}

\* ------------------------------------------------------------ document order
RECURSIVE DocOrder(_, _)
DocOrder(db, x) ==    \* all ids at and below x, in document order
    IF x \in DOMAIN db.g
    THEN FoldLeft(LAMBDA acc, k : acc \o DocOrder(db, k), <<x>>, db.g[x].kids)
    ELSE <<x>>
DocGroups(db) == SelectSeq(DocOrder(db, db.root), LAMBDA k : k \in DOMAIN db.g)
DocEntries(db) == SelectSeq(DocOrder(db, db.root), LAMBDA k : k \in DOMAIN db.e)

\* ------------------------------------------------------------ well-formedness
\* One tree: every element has exactly one place, the root none, and all hang below the root.
TreeOK(db) ==
    /\ db.root \in DOMAIN db.g
    /\ DOMAIN db.g \cap DOMAIN db.e = {}
    /\ \A g \in DOMAIN db.g : /\ RangeOf(db.g[g].kids) \subseteq Ids(db)
                              /\ IsInjective(db.g[g].kids)
    /\ \A x \in Ids(db) \ {db.root} : Cardinality({g \in DOMAIN db.g : x \in RangeOf(db.g[g].kids)}) = 1
    /\ ~HasParent(db, db.root)
    /\ Below(db, db.root) = Ids(db)
HistOK(db) == \A x \in DOMAIN db.e : \A i \in DOMAIN db.e[x].hist : ~db.e[x].hist[i].nested

\* ------------------------------------------------------------ tree edits
Unlink(db, x) == [db EXCEPT !.g[Parent(db, x)].kids = SelectSeq(@, LAMBDA k : k # x)]
Link(db, g, x) == [db EXCEPT !.g[g].kids = Append(@, x)]
Move(db, x, g) == Link(Unlink(db, x), g, x)
Delete(db, x) ==
    LET gone == Below(db, x)
        d == Unlink(db, x)
    IN [d EXCEPT !.g = [k \in DOMAIN d.g \ gone |-> d.g[k]], !.e = [k \in DOMAIN d.e \ gone |-> d.e[k]]]
RECURSIVE DeleteAll(_, _)
DeleteAll(db, xs) == IF xs = <<>> THEN db ELSE DeleteAll(Delete(db, Head(xs)), Tail(xs))
RECURSIVE MoveAll(_, _, _)
MoveAll(db, xs, g) == IF xs = <<>> THEN db ELSE MoveAll(Move(db, Head(xs), g), Tail(xs), g)

\* Put entry x at position i (0-based) among the entries of its group; subgroups keep their order.
Reindex(db, x, i) ==
    LET p == Parent(db, x)
        others == SelectSeq(Ents(db, p), LAMBDA k : k # x)
        n == IF i > Len(others) THEN Len(others) ELSE i
        new == SubSeq(others, 1, n) \o <<x>> \o SubSeq(others, n + 1, Len(others))
    IN [db EXCEPT !.g[p].kids = new \o Subs(db, p)]

EntryIndex(db, x) == (CHOOSE i \in DOMAIN Ents(db, Parent(db, x)) : Ents(db, Parent(db, x))[i] = x) - 1

Uuids(db) == {db.g[x].u : x \in DOMAIN db.g} \union {db.e[x].u : x \in DOMAIN db.e}
BinExists(db) == \E x \in DOMAIN db.g : db.g[x].u = db.rb
Bin(db) == CHOOSE x \in DOMAIN db.g : db.g[x].u = db.rb
CanTrash(db, x) == x # db.root /\ (BinExists(db) => x # Bin(db) /\ x \notin Ancestors(db, Bin(db)))

\* ------------------------------------------------------------ records of new elements
NewTimes(now, x, e) == [c |-> now, m |-> now, a |-> now, x |-> x, e |-> e]
NewGroup(u, name, notes, icon, t, o) == [u |-> u, name |-> name, notes |-> notes, icon |-> icon, t |-> t, kids |-> <<>>, o |-> o]
Fld(v, p) == [v |-> v, p |-> p]
Opt(k, v, p) == IF v = "" THEN <<>> ELSE (k :> Fld(v, p))
NewFields(a) == ("Title" :> Fld(a.title, FALSE)) @@ ("UserName" :> Fld(a.username, FALSE)) @@
                ("Password" :> Fld(a.password, TRUE)) @@ Opt("URL", a.url, FALSE) @@
                Opt("Notes", a.notes, FALSE) @@ Opt("otp", a.otp, TRUE)
NewEntry(a, t, o) ==
    [u |-> a.u, f |-> NewFields(a), tags |-> a.tags, icon |-> a.icon,
     ae |-> IF "ae" \in DOMAIN a THEN a.ae ELSE "True", as |-> IF "as" \in DOMAIN a THEN a.as ELSE "", aw |-> IF "aw" \in DOMAIN a THEN a.aw ELSE "",
     t |-> t, att |-> <<>>, hist |-> <<>>, o |-> o]

Val(e, k) == IF k \in DOMAIN e.f THEN e.f[k].v ELSE ""
Prot(e, k) == k \in DOMAIN e.f /\ e.f[k].p

\* An entry with that title (and user name, if one is given) is already in the group.
Duplicate(db, a) ==
    \E x \in RangeOf(Ents(db, a.d)) :
        /\ ~a.tnone /\ Val(db.e[x], "Title") = a.title
        /\ a.unone \/ Val(db.e[x], "UserName") = a.username
\* texts that are empty on both sides: neither outcome is claimed
DuplicateUnclear(a) == a.title = "" \/ (~a.unone /\ a.username = "")

\* ------------------------------------------------------------ fields
\* Protection of a standard field after assignment: passwords and OTP secrets become
\* protected when first filled, otherwise the existing mark is kept.
ProtAfter(e, k) ==
    IF k \in {"Password", "otp"} /\ Val(e, k) = "" THEN TRUE ELSE Prot(e, k)
SetField(e, k, v) == [e EXCEPT !.f = Put(@, k, Fld(v, ProtAfter(e, k)))]
SetCustom(e, k, v, p) == [e EXCEPT !.f = Put(@, k, Fld(v, p))]
DelCustom(e, k) == [e EXCEPT !.f = Drop(@, k)]
CustomKeys(e) == DOMAIN e.f \ Reserved

\* ------------------------------------------------------------ history
Snap(e) == [f |-> e.f, tags |-> e.tags, icon |-> e.icon, ae |-> e.ae, as |-> e.as, aw |-> e.aw,
                t |-> e.t, att |-> e.att, o |-> e.o, id |-> e.u, nested |-> FALSE]
SaveHistory(db, x) == [db EXCEPT !.e[x].hist = Append(@, Snap(db.e[x]))]

\* ------------------------------------------------------------ binaries
DropRefs(att, i) ==
    LET kept == SelectSeq(att, LAMBDA a : a.r # i)
    IN [j \in DOMAIN kept |-> IF kept[j].r > i THEN [kept[j] EXCEPT !.r = @ - 1] ELSE kept[j]]
DeleteBinary(db, i) ==
    [db EXCEPT !.bins = RemoveAt1(@, i + 1),
               !.bp.s = IF db.bp.k THEN RemoveAt1(@, i + 1) ELSE @,
               !.e = [x \in DOMAIN @ |->
                        [@[x] EXCEPT !.att = DropRefs(@, i),
                                     !.hist = [j \in DOMAIN @ |-> [@[j] EXCEPT !.att = DropRefs(@, i)]]]]]
\* What an attachment delivers (the empty sequence: no such binary).
Data(db, a) == IF a.r + 1 \in DOMAIN db.bins /\ a.r >= 0 THEN <<db.bins[a.r + 1]>> ELSE <<>>

\* ------------------------------------------------------------ misc
StoredTime(db, t) == IF db.v = 4 THEN <<t[1], t[2], 0>> ELSE t
OnElem(db, x, F(_)) ==
    IF x \in DOMAIN db.g THEN [db EXCEPT !.g[x] = F(@)] ELSE [db EXCEPT !.e[x] = F(@)]

\* ------------------------------------------------------------ outcomes
\* The set of permitted outcomes ("ok" = the call returns, "err" = it raises) of event ev.
Outcome(db, ev) ==
    LET a == ev.a IN
    CASE ev.bad = "bad" -> {"err"}
      [] ev.bad = "odd" -> {"ok", "err"}
      [] ev.op = "add_entry" -> IF Duplicate(db, a) /\ ~a.force
                                THEN IF DuplicateUnclear(a) THEN {"ok", "err"} ELSE {"err"}
                                ELSE {"ok"}
      [] ev.op = "move_g" -> IF a.d \in Below(db, a.x) THEN {"err"} ELSE {"ok"}
      \* nothing of the list is moved unless everything can be
      [] ev.op = "append" -> IF \E i \in DOMAIN a.xs : a.d \in Below(db, a.xs[i]) THEN {"err"} ELSE {"ok"}
      [] ev.op \in {"trash_e", "trash_g"} -> IF CanTrash(db, a.x) THEN {"ok"} ELSE {"err"}
      [] ev.op = "set_c" -> IF a.k \in Reserved THEN {"err"} ELSE {"ok"}
      [] ev.op = "del_c" -> IF a.k \in CustomKeys(db.e[a.x]) THEN {"ok"} ELSE {"err"}
      [] ev.op = "del_hist" -> IF a.i + 1 \in DOMAIN db.e[a.x].hist THEN {"ok"} ELSE {"err"}
      [] ev.op = "del_hist_all" -> IF db.e[a.x].hist = <<>> THEN {"ok", "err"} ELSE {"ok"}
      [] ev.op = "del_bin" -> IF a.i >= 0 /\ a.i < Len(db.bins) THEN {"ok"} ELSE {"err"}
      [] OTHER -> {"ok"}

\* ------------------------------------------------------------ transitions
\* The database after event ev returned normally.  Now(id, field) supplies the value of a time
\* that has to be the current one; Oth(id) the uninterpreted content of a new element.
Step(db, ev, Now(_, _), Oth(_)) ==
    LET a == ev.a
        op == ev.op
        tnow(id, x, e) == [c |-> Now(id, "c"), m |-> Now(id, "m"), a |-> Now(id, "a"), x |-> x, e |-> e]
    IN
    CASE op = "add_group" ->
            Link([db EXCEPT !.g = Put(@, a.new, NewGroup(a.u, a.name, a.notes, a.icon, tnow(a.new, Now(a.new, "x?"), "False"), Oth(a.new)))],
                 a.d, a.new)
      [] op = "add_entry" ->
            Link([db EXCEPT !.e = Put(@, a.new, NewEntry(a,
                        IF a.exp = <<>> THEN tnow(a.new, Now(a.new, "x?"), "False")
                                        ELSE tnow(a.new, StoredTime(db, a.exp), "True"), Oth(a.new)))],
                 a.d, a.new)
      \* an object made by its class, put into a group
      [] op = "new_entry" ->
            Link([db EXCEPT !.e = Put(@, a.new, NewEntry(a, tnow(a.new, IF a.exp = <<>> THEN Now(a.new, "x?") ELSE StoredTime(db, a.exp), a.e), Oth(a.new)))],
                 a.d, a.new)
      [] op = "new_group" ->
            Link([db EXCEPT !.g = Put(@, a.new, NewGroup(a.u, a.name, a.notes, a.icon,
                        tnow(a.new, IF a.exp = <<>> THEN Now(a.new, "x?") ELSE StoredTime(db, a.exp), a.e), Oth(a.new)))],
                 a.d, a.new)
      [] op \in {"del_e", "del_g"} -> Delete(db, a.x)
      [] op \in {"move_e", "move_g"} -> Move(db, a.x, a.d)
      [] op = "append" -> MoveAll(db, a.xs, a.d)
      [] op = "reindex" -> Reindex(db, a.x, a.i)
      [] op \in {"trash_e", "trash_g"} ->
            IF BinExists(db) THEN Move(db, a.x, Bin(db))
            ELSE LET d1 == Link([db EXCEPT !.g = Put(@, a.new, NewGroup(a.u, a.binname, "", "", tnow(a.new, Now(a.new, "x?"), "False"), Oth(a.new)))],
                                db.root, a.new)
                 IN Move([d1 EXCEPT !.rb = a.u], a.x, a.new)
      [] op = "empty_g" -> DeleteAll(db, db.g[a.x].kids)
      [] op = "set_f" -> [db EXCEPT !.e[a.x] = SetField(@, a.k, a.v)]
      [] op = "set_c" -> [db EXCEPT !.e[a.x] = SetCustom(@, a.k, a.v, a.p)]
      [] op = "del_c" -> [db EXCEPT !.e[a.x] = DelCustom(@, a.k)]
      [] op = "set_tags" -> [db EXCEPT !.e[a.x].tags = a.v]
      [] op = "set_icon" -> OnElem(db, a.x, LAMBDA r : [r EXCEPT !.icon = a.v])
      [] op = "set_ae" -> [db EXCEPT !.e[a.x].ae = a.v]
      [] op = "set_as" -> [db EXCEPT !.e[a.x].as = a.v]
      [] op = "set_aw" -> [db EXCEPT !.e[a.x].aw = a.v]
      [] op = "set_t" -> OnElem(db, a.x, LAMBDA r : [r EXCEPT !.t[a.k] = StoredTime(db, a.v)])
      [] op = "set_exp" -> OnElem(db, a.x, LAMBDA r : [r EXCEPT !.t.e = a.v])
      [] op = "touch" -> OnElem(db, a.x, LAMBDA r :
                            IF a.mod THEN [r EXCEPT !.t.a = Now(a.x, "a"), !.t.m = Now(a.x, "m")]
                                     ELSE [r EXCEPT !.t.a = Now(a.x, "a")])
      [] op = "g_name" -> [db EXCEPT !.g[a.x].name = a.v]
      [] op = "g_notes" -> [db EXCEPT !.g[a.x].notes = a.v]
      [] op = "save_hist" -> SaveHistory(db, a.x)
      [] op = "del_hist" -> [db EXCEPT !.e[a.x].hist = RemoveAt1(@, a.i + 1)]
      [] op = "del_hist_all" -> [db EXCEPT !.e[a.x].hist = <<>>]
      [] op = "add_bin" -> [db EXCEPT !.bins = Append(@, a.v), !.bp.s = IF db.bp.k THEN Append(@, a.p) ELSE @]
      [] op = "del_bin" -> DeleteBinary(db, a.i)
      [] op = "add_att" -> [db EXCEPT !.e[a.x].att = Append(@, [n |-> a.n, r |-> a.i])]
      [] op = "del_att" -> [db EXCEPT !.e[a.x].att = RemoveAt1(@, a.i + 1)]
      [] op = "ren_att" -> [db EXCEPT !.e[a.x].att[a.i + 1].n = a.n]
      [] op = "set_att" -> [db EXCEPT !.e[a.x].att[a.i + 1].r = a.r]
      [] op = "meta" -> [db EXCEPT !.m[a.k] = a.v]
      [] op = "cred" -> [db EXCEPT !.m.mkc = Now("", "mkc")]
      [] op = "set_mkc" -> [db EXCEPT !.m.mkc = StoredTime(db, a.v)]
      [] op = "set_uuid" -> OnElem(db, a.x, LAMBDA r : [r EXCEPT !.u = a.u])
      [] op \in {"persist", "noop", "look"} -> db

\* ------------------------------------------------------------ what the API shows
PathNames(db, x) ==     \* group names from below the root down to x's parent
    LET up[y \in Ids(db)] ==
            IF ~HasParent(db, y) \/ Parent(db, y) = db.root THEN <<>>
            ELSE Append(up[Parent(db, y)], db.g[Parent(db, y)].name)
    IN up[x]
UuidsOf(db, s) == [i \in DOMAIN s |-> IF s[i] \in DOMAIN db.g THEN db.g[s[i]].u ELSE db.e[s[i]].u]
AttView(db, att) == [i \in DOMAIN att |-> [n |-> att[i].n, r |-> att[i].r, d |-> Data(db, att[i])]]
StdVals(e) == [k \in Reserved |-> Val(e, k)]
HistView(db, h) == [id |-> h.id, f |-> StdVals(h), c |-> [k \in CustomKeys(h) |-> h.f[k].v],
                    tags |-> h.tags, icon |-> h.icon, t |-> h.t, att |-> AttView(db, h.att), ish |-> TRUE]
EntryView(db, x) ==
    LET e == db.e[x] IN
    [f |-> StdVals(e), c |-> [k \in CustomKeys(e) |-> e.f[k].v], p |-> [k \in CustomKeys(e) |-> e.f[k].p],
     tags |-> e.tags, icon |-> e.icon, ae |-> e.ae, as |-> e.as, aw |-> e.aw, t |-> e.t,
     att |-> AttView(db, e.att), ish |-> FALSE, hist |-> [i \in DOMAIN e.hist |-> HistView(db, e.hist[i])],
     par |-> db.g[Parent(db, x)].u, idx |-> EntryIndex(db, x), path |-> Append(PathNames(db, x), Val(e, "Title"))]
GroupView(db, x) ==
    LET g == db.g[x] IN
    [name |-> g.name, notes |-> g.notes, icon |-> g.icon, t |-> g.t, ents |-> UuidsOf(db, Ents(db, x)), subs |-> UuidsOf(db, Subs(db, x)),
     par |-> IF HasParent(db, x) THEN db.g[Parent(db, x)].u ELSE "", isroot |-> x = db.root,
     path |-> IF x = db.root THEN <<>> ELSE Append(PathNames(db, x), g.name)]
DbView(db) ==
    [groups |-> UuidsOf(db, DocGroups(db)), entries |-> UuidsOf(db, DocEntries(db)), bins |-> db.bins,
     rb |-> IF BinExists(db) THEN db.rb ELSE "", root |-> db.g[db.root].u,
     name |-> db.m.name, desc |-> db.m.desc, user |-> db.m.user,
     atts |-> FlattenSeq([i \in DOMAIN DocEntries(db) |-> db.e[DocEntries(db)[i]].att])]

\* ------------------------------------------------------------ objects
\* Every way to an element leads to that element: the id of the element that an object got by way w stands for.
U(db, x) == IF x \in DOMAIN db.g THEN db.g[x].u ELSE db.e[x].u
FirstWith(db, s, u) == LET hits == SelectSeq(s, LAMBDA k : U(db, k) = u) IN IF hits = <<>> THEN "" ELSE hits[1]
At(s, i) == IF i + 1 \in DOMAIN s THEN s[i + 1] ELSE ""
Owners(db) == FlattenSeq([i \in DOMAIN DocEntries(db) |-> [j \in DOMAIN db.e[DocEntries(db)[i]].att |-> DocEntries(db)[i]]])
Reached(db, w) ==
    CASE w.by = "entries" -> At(DocEntries(db), w.i)
      [] w.by = "groups" -> At(DocGroups(db), w.i)
      [] w.by = "ents" -> At(Ents(db, w.x), w.i)
      [] w.by = "subs" -> At(Subs(db, w.x), w.i)
      [] w.by = "parent" -> Parent(db, w.x)
      [] w.by = "uuid_e" -> FirstWith(db, DocEntries(db), U(db, w.x))
      [] w.by = "uuid_g" -> FirstWith(db, DocGroups(db), U(db, w.x))
      [] w.by = "owner" -> At(Owners(db), w.i)
      [] w.by = "root" -> db.root
      [] w.by = "bin" -> IF BinExists(db) THEN Bin(db) ELSE ""
      [] w.by = "self" -> w.x
\* Objects compare by what they stand for.
Equal(db, x, y) == U(db, x) = U(db, y)
\* Two snapshots (index -1: the current entry): those that are the same are equal, those of another entry or another time are not.
SnapEqual(db, x, i, y, j) ==
    IF i = -1 \/ j = -1 THEN {i = j /\ Equal(db, x, y)}
    ELSE IF x = y /\ i = j THEN {TRUE}
    ELSE LET a == db.e[x].hist[i + 1]
             b == db.e[y].hist[j + 1]
         IN IF a.id # b.id \/ a.t.m # b.t.m THEN {FALSE} ELSE {TRUE, FALSE}
\* An element as text: it and everything below it, in document order, with the depth.
RECURSIVE Outline(_, _, _)
Outline(db, x, n) ==
    IF x \in DOMAIN db.g
    THEN FoldLeft(LAMBDA acc, k : acc \o Outline(db, k, n + 1), <<[dp |-> n, r |-> [k \in DOMAIN db.g[x] \ {"kids"} |-> db.g[x][k]]]>>, db.g[x].kids)
    ELSE <<[dp |-> n, r |-> db.e[x]]>>
=============================================================================
