------------------------------ MODULE DerefMC -------------------------------
(* All small databases whose titles and user names are texts with references  *)
(* among them (and to nothing): dereferencing is defined, fails exactly on     *)
(* missing targets and cycles, and leaves other text alone.                   *)
EXTENDS Deref, Json
CONSTANTS NE, EMIT
Id(i) == [k \in 1..IdLen |-> IF k = IdLen THEN i ELSE 10]
\* symbolic texts: how the harness builds them, and their code points
CONSTANT Syms      \* out of a, b, none, bad, lost, byTa, byUb, T<i>, U<i>, xT<i>
Ref0(w, in, v) == Open \o <<Letters[w], 64, Letters[in], 58>> \o v \o <<125>>
Code(x) ==
    IF x = "a" THEN <<97>> ELSE IF x = "b" THEN <<98>> ELSE IF x = "none" THEN <<>>
    ELSE IF x = "bad" THEN Ref0("T", "I", <<122, 122>>) ELSE IF x = "lost" THEN Ref0("T", "I", Upper(Id(15)))
    ELSE IF x = "byTa" THEN Ref0("U", "T", <<97>>) ELSE IF x = "byUb" THEN Ref0("T", "U", <<98>>)
    ELSE LET i == CHOOSE j \in 1..NE : x \in {"T" \o ToString(j), "U" \o ToString(j), "xT" \o ToString(j)}
         IN IF x = "T" \o ToString(i) THEN Ref0("T", "I", Upper(Id(i))) ELSE IF x = "U" \o ToString(i) THEN Ref0("U", "I", Upper(Id(i))) ELSE <<120>> \o Ref0("T", "I", Upper(Id(i))) \o <<121>> \o Ref0("T", "I", Upper(Id(i)))
VARIABLE d
\* grown field by field, so that the workers share the work
Init == d = <<>>
Next == Len(d) < NE /\ \E t, u \in Syms : d' = Append(d, [t |-> t, u |-> u])
Spec == Init /\ [][Next]_d
E == [i \in DOMAIN d |-> [hist |-> FALSE, id |-> Id(i), f |-> [T |-> Code(d[i].t), U |-> Code(d[i].u)]]]
\* the graph of fields, independent of the recursion above
Nodes == (DOMAIN d) \X {"T", "U"}
RefsIn(s) == LET ps == Parts(s, 1) IN {ps[k] : k \in {j \in DOMAIN ps : ps[j].r}}
Close(succ, S0) == LET RECURSIVE c(_)
                       c(S) == LET T == S \union UNION {succ[n] : n \in S} IN IF T = S THEN S ELSE c(T)
                   IN c(S0)
Laws ==
    LET EE == E
        refs == [n \in Nodes |-> RefsIn(EE[n[1]].f[n[2]])]
        succ == [n \in Nodes |-> {<<Match(EE, p), p.w>> : p \in {q \in refs[n] : Match(EE, q) # 0}}]
        broken == {n \in Nodes : \E p \in refs[n] : Match(EE, p) = 0}
        cyclic == {n \in Nodes : n \in Close(succ, succ[n])}
    IN \A n \in Nodes :
        LET s == EE[n[1]].f[n[2]]
            r == Deref(EE, s)
        IN /\ (r.k = "none") = (Close(succ, {n}) \intersect (broken \union cyclic) # {})
           /\ refs[n] = {} => r = Txt(s)
           /\ r.k = "text" => RefsIn(r.t) = {}
           /\ Deref(EE, Ref(EE[n[1]], n[2])) = r
Emit == ~EMIT \/ Len(d) # NE \/ PrintT("DB " \o ToJson(d))
=============================================================================
