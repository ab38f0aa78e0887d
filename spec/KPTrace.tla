------------------------------ MODULE KPTrace -------------------------------
(***************************************************************************)
(* Total validation of recorded executions against KPCore.  Every event      *)
(* carries the call, its outcome and the projected database afterwards (as a *)
(* delta to the previous logged state).  For each event the set of failing   *)
(* clauses is computed, then the state is resynchronised to the logged one,  *)
(* so one deviation never hides another.  The failures are printed as JSON.  *)
(***************************************************************************)
EXTENDS KPCore, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, db, fails
vars == <<l, db, fails>>

\* ---- logged state after ev
Apply(d, delta) ==
    LET g0 == [k \in DOMAIN d.g \ RangeOf(delta.gd) |-> d.g[k]]
        e0 == [k \in DOMAIN d.e \ RangeOf(delta.ed) |-> d.e[k]]
        d1 == [d EXCEPT !.g = delta.g @@ g0, !.e = delta.e @@ e0, !.dups = delta.dups, !.bp = delta.bp]
        d2 == IF "rest" \in DOMAIN delta THEN [d1 EXCEPT !.root = delta.rest.root, !.bins = delta.rest.bins,
                                                        !.rb = delta.rest.rb, !.m = delta.rest.m, !.v = delta.rest.v] ELSE d1
    IN d2

Leq(s, t) == s[1] < t[1] \/ (s[1] = t[1] /\ s[2] <= t[2])
InWin(ev, t) == Len(t) = 3 /\ Leq(ev.t0, t) /\ Leq(t, ev.t1)

\* ---- differences between the expected and the logged database
C(c, x, k) == [c |-> c, x |-> x, k |-> k]
DiffFields(x, fe, fg, lax) ==
    LET nz(f) == IF lax THEN {k \in DOMAIN f : f[k].v # "" \/ f[k].p} ELSE DOMAIN f
        ke == nz(fe)
        kg == nz(fg)
        common == DOMAIN fe \cap DOMAIN fg
    IN {C("efield", x, k) : k \in (ke \ DOMAIN fg) \union (kg \ DOMAIN fe)} \union
       {C("efield", x, k) : k \in {j \in common : fe[j].v # fg[j].v}} \union
       {C("eprot", x, k) : k \in {j \in common : fe[j].p # fg[j].p}}
DiffSnap(x, i, he, hg) ==
    {C("ehist", x, ToString(i) \o k) : k \in {j \in DOMAIN he : j \notin DOMAIN hg \/ he[j] # hg[j]}} \union
    (IF he.f # hg.f /\ DOMAIN he.f = DOMAIN hg.f /\ \E k \in DOMAIN he.f : he.f[k].p # hg.f[k].p
     THEN {C("eprot", x, "hist")} ELSE {}) \union
    (IF he.att # hg.att THEN {C("eatt", x, "hist")} ELSE {})
DiffEntry(x, ee, eg, lax) ==
    DiffFields(x, ee.f, eg.f, lax) \union
    {C("efield", x, k) : k \in {j \in {"tags", "icon", "ae", "as", "aw"} : ee[j] # eg[j]}} \union
    {C("etimes", x, k) : k \in {j \in DOMAIN ee.t : ee.t[j] # eg.t[j]}} \union
    (IF ee.u # eg.u THEN {C("uuid", x, "uuid")} ELSE {}) \union
    (IF ee.att # eg.att THEN {C("eatt", x, "att")} ELSE {}) \union
    (IF ee.o # eg.o THEN {C("eother", x, "o")} ELSE {}) \union
    (IF Len(ee.hist) # Len(eg.hist) THEN {C("ehist", x, "len")}
     ELSE UNION {DiffSnap(x, i, ee.hist[i], eg.hist[i]) : i \in DOMAIN ee.hist})
DiffGroup(x, de, dg) ==
    LET ge == de.g[x]
        gg == dg.g[x]
    IN {C("gfield", x, k) : k \in {j \in {"name", "notes", "icon"} : ge[j] # gg[j]}} \union
       {C("gtimes", x, k) : k \in {j \in DOMAIN ge.t : ge.t[j] # gg.t[j]}} \union
       (IF ge.u # gg.u THEN {C("uuid", x, "uuid")} ELSE {}) \union
       (IF ge.o # gg.o THEN {C("gother", x, "o")} ELSE {}) \union
       (IF Ents(de, x) # Ents(dg, x) THEN {C("tree", x, "entries")} ELSE {}) \union
       (IF Subs(de, x) # Subs(dg, x) THEN {C("tree", x, "subgroups")} ELSE {})
Diff(de, dg, new) ==
    {C("tree", x, "lost") : x \in Ids(de) \ Ids(dg)} \union
    {C("tree", x, "extra") : x \in Ids(dg) \ Ids(de)} \union
    UNION {DiffGroup(x, de, dg) : x \in DOMAIN de.g \cap DOMAIN dg.g} \union
    UNION {DiffEntry(x, de.e[x], dg.e[x], x \in new) : x \in DOMAIN de.e \cap DOMAIN dg.e} \union
    (IF de.bins # dg.bins THEN {C("bins", "", "bins")} ELSE {}) \union
    (IF de.bp.k /\ dg.bp.k /\ de.bp.s # dg.bp.s THEN {C("binflag", "", "protected")} ELSE {}) \union
    (IF de.rb # dg.rb THEN {C("rb", "", "rb")} ELSE {}) \union
    (IF de.root # dg.root \/ de.v # dg.v THEN {C("tree", "", "root")} ELSE {}) \union
    {C("meta", "", k) : k \in {j \in DOMAIN de.m : de.m[j] # dg.m[j]} \ {"mkc"}} \union
    (IF de.m.mkc # dg.m.mkc THEN {C("mkc", "", "mkc")} ELSE {}) \union
    {C("dup", "", k) : k \in RangeOf(dg.dups) \ RangeOf(de.dups)}

\* ---- one event
NewIds(ev) == IF "new" \in DOMAIN ev.a THEN {ev.a.new} ELSE {}
Expected(d, ev, post) ==      \* the database after a successful call
    LET now(id, k) ==
            IF k = "mkc" THEN (IF InWin(ev, post.m.mkc) THEN post.m.mkc ELSE <<-9>>)
            ELSE LET r == IF id \in DOMAIN post.g THEN post.g[id].t ELSE IF id \in DOMAIN post.e THEN post.e[id].t
                          ELSE [c |-> <<>>, m |-> <<>>, a |-> <<>>, x |-> <<>>, e |-> ""]
                 IN IF k = "x?" THEN r.x ELSE IF InWin(ev, r[k]) THEN r[k] ELSE <<-9>>
        oth(id) == IF id \in DOMAIN post.g THEN post.g[id].o ELSE IF id \in DOMAIN post.e THEN post.e[id].o ELSE ""
    IN Step(d, ev, now, oth)
CheckCall(d, ev, post) ==
    LET out == Outcome(d, ev)
    IN IF ev.res \notin out
       THEN {C("outcome", ev.res, ev.exc)} \union (IF ev.res = "err" THEN Diff(d, post, {}) ELSE {})
       ELSE IF ev.res = "err" THEN {[c \in DOMAIN f |-> IF c = "k" THEN f.k \o "!" ELSE f[c]] : f \in Diff(d, post, {})}
       ELSE IF ev.bad = "odd" THEN {}
       ELSE LET fresh == \A x \in NewIds(ev) : x \notin Ids(d) /\ ev.a.u \notin Uuids(d)
                exp == Expected(d, ev, post)
            IN (IF fresh THEN {} ELSE {C("dup", "", "newid")}) \union Diff(exp, post, NewIds(ev)) \union
               (IF ev.op = "add_bin" /\ ev.ret # Len(d.bins) THEN {C("bins", "", "returned id")} ELSE {})

\* ---- what the API reported afterwards (obs: sequence of [k, id, v]) against the logged state
ViewOf(d, ob) == CASE ob.k = "e" -> EntryView(d, ob.id) [] ob.k = "g" -> GroupView(d, ob.id) [] ob.k = "db" -> DbView(d)
NamesKnown(d, x) == \A p \in Ancestors(d, x) \ {d.root} : d.g[p].name # ""
CheckView(d, ob) ==
    IF ob.k \in {"e", "g"} /\ ob.id \notin Ids(d) THEN {C("view", ob.id, "gone")}
    ELSE LET w == ViewOf(d, ob)
             keys == {j \in DOMAIN w : j \in DOMAIN ob.v} \ (IF ob.k # "db" /\ ~NamesKnown(d, ob.id) THEN {"path"} ELSE {})
         IN {C("view", ob.id, k) : k \in {j \in keys : w[j] # ob.v[j]}}

Prefix(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
CheckObs(d, ob) ==
    CASE ob.k \in {"e", "g", "db"} -> CheckView(d, ob)
      [] ob.k = "via" -> CheckView(d, [k |-> ob.t, id |-> Reached(d, ob.w), v |-> ob.v])
      [] ob.k = "eq" -> IF ob.e = Equal(d, ob.x, ob.y) /\ ob.n = ~ob.e /\ (ob.e => ob.h) THEN {} ELSE {C("equality", ob.x, ob.y)}
      [] ob.k = "heq" -> IF ob.e \in SnapEqual(d, ob.x, ob.i, ob.y, ob.j) /\ ob.n = ~ob.e /\ (ob.e => ob.h) THEN {} ELSE {C("equality", ob.x, "snapshots")}
      [] ob.k = "snap" -> IF HistView(d, d.e[ob.id].hist[ob.i + 1]) = ob.v THEN {} ELSE {C("held", ob.id, "owner")}
      [] ob.k = "reads" -> IF ob.same THEN {} ELSE {C("reads", "", "changed something")}
      [] ob.k = "xml" -> Diff(d, Apply(d, ob.v), {})
      [] ob.k = "outline" -> IF Outline(d, ob.id, 0) = ob.v THEN {} ELSE {C("outline", ob.id, "dump_xml")}
      [] ob.k = "heldh" -> IF Prefix([i \in DOMAIN d.e[ob.id].hist |-> HistView(d, d.e[ob.id].hist[i])], Len(ob.v)) = ob.v THEN {} ELSE {C("held", ob.id, "hist")}
      [] ob.k = "helda" -> IF Prefix(AttView(d, d.e[ob.id].att), Len(ob.v)) = ob.v THEN {} ELSE {C("held", ob.id, "att")}

\* the flags of binaries are seen in files only; in between they are what the calls asked for
Flags(d, ev, post) ==
    IF post.bp.k THEN post.bp
    ELSE IF ev.res = "ok" /\ ev.bad # "odd" /\ "ok" \in Outcome(d, ev) /\ ev.op \in {"add_bin", "del_bin"} THEN Expected(d, ev, post).bp
    ELSE d.bp

Init == l = 1 /\ db = [v |-> 0] /\ fails = <<>>
Next ==
    /\ l <= Len(Trace)
    /\ LET ev == Trace[l] IN
       IF ev.op = "init"
       THEN /\ db' = ev.post
            /\ fails' = fails \o SetToSeq({[l |-> l, op |-> "init", res |-> "ok", f |-> f] :
                            f \in IF TreeOK(ev.post) THEN {} ELSE {C("tree", "", "malformed")}})
       ELSE LET post == Apply(db, ev.d)
                fs == CheckCall(db, ev, post) \union UNION {CheckObs(post, ev.obs[i]) : i \in DOMAIN ev.obs} \union
                      (IF ev.res = "ok" /\ post.dups = <<>> /\ ~TreeOK(post) THEN {C("tree", "", "malformed")} ELSE {})
            IN /\ db' = [post EXCEPT !.bp = Flags(db, ev, post)]
               /\ fails' = fails \o SetToSeq({[l |-> l, op |-> ev.op, res |-> ev.res, f |-> f] : f \in fs})
    /\ l' = l + 1
Spec == Init /\ [][Next]_vars
View == l
Report == l <= Len(Trace) \/ PrintT("FAILS " \o ToJson([n |-> Len(Trace), fails |-> fails]))
=============================================================================
