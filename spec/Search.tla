------------------------------- MODULE Search -------------------------------
(* What a search returns: a function of the database and the query.           *)
(* Texts are sequences of code points.  The database is a sequence E of        *)
(* elements in document order: groups, entries (history entries included) and *)
(* attachments, each with the index of what it lies in (par, 0 for the root). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
\* ------------------------------------------------------------ regular expressions
Fold(c, ic) == IF ic /\ (c \in 65..90 \/ c \in (192..222) \ {215}) THEN c + 32 ELSE c
RECURSIVE Ends(_, _, _, _), Cat(_, _, _, _, _), Rep(_, _, _, _, _)
\* the positions at which a match of x in s starting at i may end
Ends(x, s, i, ic) ==
    CASE x.o = "chr" -> IF i <= Len(s) /\ Fold(s[i], ic) = Fold(x.c, ic) THEN {i + 1} ELSE {}
      [] x.o = "any" -> IF i <= Len(s) /\ s[i] # 10 THEN {i + 1} ELSE {}
      [] x.o = "set" -> IF i <= Len(s) /\ ((\E k \in DOMAIN x.cs : Fold(x.cs[k], ic) = Fold(s[i], ic)) # x.neg) THEN {i + 1} ELSE {}
      [] x.o = "cat" -> Cat(x.a, 1, s, {i}, ic)
      [] x.o = "alt" -> UNION {Ends(x.a[k], s, i, ic) : k \in DOMAIN x.a}
      [] x.o = "rep" -> UNION {Rep(x.a[1], n, s, {i}, ic) : n \in x.lo..(IF x.hi < 0 THEN Len(s) + x.lo ELSE x.hi)}
      [] x.o = "bol" -> IF i = 1 THEN {i} ELSE {}
      [] x.o = "eol" -> IF i = Len(s) + 1 \/ (i = Len(s) /\ s[i] = 10) THEN {i} ELSE {}
Cat(xs, k, s, at, ic) == IF k > Len(xs) \/ at = {} THEN at ELSE Cat(xs, k + 1, s, UNION {Ends(xs[k], s, i, ic) : i \in at}, ic)
Rep(x, n, s, at, ic) == IF n = 0 \/ at = {} THEN at ELSE Rep(x, n - 1, s, UNION {Ends(x, s, i, ic) : i \in at}, ic)
Found(x, s, ic) == \E i \in 1..(Len(s) + 1) : Ends(x, s, i, ic) # {}
\* ------------------------------------------------------------ criteria
\* q = [rx, ic, ...]; v = [t] (literal) or [x] (expression); a literal search does not find empty texts
Test(q, v, s) == IF q.rx THEN Found(v.x, s, q.ic) ELSE s # <<>> /\ s = v.t
Infix(p, s) == \E i \in 0..(Len(s) - Len(p)) : SubSeq(s, i + 1, i + Len(p)) = p
\* one criterion c = [f, key, v, many]: field f (of the property key) of the element
Holds(q, c, e) ==
    CASE c.f = "uuid" -> e.uuid = c.v.u
      [] c.f = "string" -> \E i \in DOMAIN e.strings : e.strings[i].k = c.key /\ Test(q, c.v, e.strings[i].v)
      [] c.f = "autotype_window" -> \E i \in DOMAIN e.windows : Test(q, c.v, e.windows[i])
      [] c.f = "tags" -> e.hastags /\ \A i \in DOMAIN c.many : Infix(c.many[i], e.tags)
      [] OTHER -> \E i \in DOMAIN e.fields : e.fields[i].k = c.f /\ Test(q, c.v, e.fields[i].v)
Above(E, i) == LET RECURSIVE up(_) up(j) == IF j = 0 THEN {} ELSE {j} \union up(E[j].par) IN up(E[i].par)
InHistory(E, i) == E[i].hist \/ \E j \in Above(E, i) : E[j].hist
InScope(E, q, i) == IF q.scope = 0 THEN TRUE ELSE IF q.rec THEN q.scope \in Above(E, i) ELSE E[i].par = q.scope
Matches(E, q, i) ==
    /\ E[i].kind = q.kind
    /\ q.hist \/ ~InHistory(E, i)
    /\ InScope(E, q, i)
    /\ \A k \in DOMAIN q.crit : Holds(q, q.crit[k], E[i])
Found2(E, q) == SelectSeq([i \in DOMAIN E |-> i], LAMBDA i : Matches(E, q, i))
\* ------------------------------------------------------------ paths
Text(e, f) == LET m == {i \in DOMAIN e.fields : e.fields[i].k = f} IN IF m = {} THEN <<>> ELSE e.fields[CHOOSE i \in m : TRUE].v
Has(e, f) == \E i \in DOMAIN e.fields : e.fields[i].k = f
Kids(E, gs, q, v) == {i \in DOMAIN E : E[i].kind = "group" /\ E[i].par \in gs /\ Has(E[i], "name") /\ Test(q, v, Text(E[i], "name"))}
RECURSIVE Walk(_, _, _, _)
Walk(E, gs, q, n) == IF n = 0 THEN gs ELSE Kids(E, Walk(E, gs, q, n - 1), q, q.path[n])
Root(E) == {i \in DOMAIN E : E[i].kind = "group" /\ E[i].par = 0}
ByPath(E, q) ==
    LET n == Len(q.path)
        hits == IF q.kind = "group" THEN Walk(E, Root(E), q, n)
                ELSE IF n = 0 THEN {}
                ELSE {i \in DOMAIN E : E[i].kind = "entry" /\ ~E[i].hist /\ E[i].par \in Walk(E, Root(E), q, n - 1) /\ Has(E[i], "title") /\ Test(q, q.path[n], Text(E[i], "title"))}
    IN SelectSeq([i \in DOMAIN E |-> i], LAMBDA i : i \in hits)
\* ------------------------------------------------------------ the answer
All(E, q) == IF q.bypath THEN ByPath(E, q) ELSE Found2(E, q)
Head1(a) == IF a = <<>> THEN <<>> ELSE <<a[1]>>
Answer(E, q) == LET a == All(E, q) IN IF q.first \/ q.bypath THEN [single |-> TRUE, ids |-> Head1(a)] ELSE [single |-> FALSE, ids |-> a]
=============================================================================
