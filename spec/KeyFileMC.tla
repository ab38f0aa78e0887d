----------------------------- MODULE KeyFileMC ------------------------------
(* Shapes of key files: what every rule's neighbours look like.  Checks on     *)
(* abstract contents that exactly one rule applies and that it yields bytes;  *)
(* prints each shape with the rule for the harness to make files of.          *)
EXTENDS KeyFile, Json
CONSTANT EMIT
Lens == {0, 1, 16, 31, 32, 33, 63, 64, 65, 66, 128, 200}
Alphs == {"lower", "upper", "mixed", "digits", "almost", "bytes", "zeros", "text", "spaces"}
Vers == {"1.0", "1.00", "1.1", "2.0", "2.00", "2.1", "3.0", "10", "", "none"}
Datas == {"b64", "b64 wrapped", "hex upper", "hex lower", "hex grouped", "missing"}
Hashes == {"right", "right lower", "wrong", "none"}
Wraps == {"plain", "declaration", "bom", "utf16", "comment", "key first", "extra", "indent", "truncated", "tail"}
Sizes == {1, 16, 31, 32, 33, 64}
Plain == [t : {"plain"}, len : Lens, alph : Alphs]
Xml == [t : {"xml"}, ver : Vers, data : Datas, hash : Hashes, wrap : Wraps, size : Sizes]
\* b64 data belongs to version 1 and hex data to version 2; a mismatch is not a defined key file
Sensible(s) == CASE s.data \in {"b64", "b64 wrapped"} -> s.ver \notin {"2.0", "2.00"} /\ s.hash = "none"
                 [] s.data = "missing" -> s.hash = "none"
                 [] OTHER -> s.ver \notin {"1.0", "1.00"} /\ (s.ver \in {"2.0", "2.00"} => s.hash # "none")
XKind(s) == IF s.wrap = "truncated" THEN "content" ELSE IF s.data = "missing" THEN "content" ELSE IF s.ver \in {"1.0", "1.00"} THEN "xml1" ELSE IF s.ver \in {"2.0", "2.00"} THEN "xml2" ELSE "content"
PKind(s) == IF s.len = 32 THEN "raw" ELSE IF s.len = 64 /\ s.alph \in {"lower", "upper", "mixed", "digits"} THEN "hex" ELSE "sha"
VARIABLE shape
Init == shape \in Plain \union {s \in Xml : Sensible(s)}
Next == UNCHANGED shape
Spec == Init /\ [][Next]_shape
\* a representative content of a plain shape
Rep(s) == [i \in 1..s.len |-> CASE s.alph = "lower" -> 97 [] s.alph = "upper" -> 70 [] s.alph = "mixed" -> IF i % 2 = 0 THEN 65 ELSE 102 [] s.alph = "digits" -> 57
             [] s.alph = "almost" -> IF i = s.len THEN 103 ELSE 97 [] s.alph = "bytes" -> (7 * i) % 256 [] s.alph = "zeros" -> 0 [] s.alph = "text" -> 120 [] s.alph = "spaces" -> 32]
NoXml == [wf |-> FALSE, hasver |-> FALSE, hasdata |-> FALSE, ver |-> <<>>, data |-> <<>>, hash |-> <<>>]
OneRule == shape.t = "plain" => /\ Kind(Rep(shape), NoXml) = PKind(shape)
                                /\ LET k == Key(Rep(shape), NoXml) IN k = Sha \/ (Len(k) = 32 /\ \A i \in DOMAIN k : k[i] \in 0..255)
Emit == ~EMIT \/ PrintT("KF " \o ToJson([s |-> shape, kind |-> IF shape.t = "plain" THEN PKind(shape) ELSE XKind(shape)]))
=============================================================================
