-------------------------------- MODULE CompHist --------------------------------
(* families of worlds and histories for Compiler; every complete history is printed *)
EXTENDS Compiler, Json, IOUtils, Randomization

Mode == IOEnv.MODE
Len0 == atoi(IOEnv.LEN)
Count == atoi(IOEnv.SAMPLE)
Pick(S) == IF Count = 0 \/ Cardinality(S) <= Count THEN S ELSE RandomSubset(Count, S)

RECURSIVE Lists(_, _)
Lists(S, n) == IF n = 0 THEN {<<>>} ELSE LET r == Lists(S, n - 1) IN r \cup {<<x>> \o q : x \in S, q \in r}
Distinct(S, n) == {q \in Lists(S, n) : \A i, j \in 1..Len(q) : q[i] = q[j] => i = j}
Plain(imps) == File("ok", imps, 1, "source", "plain")
\* the descriptor of descriptors: the usual one, and one in which options have no place for what is not interpreted yet
Gs == {File("ok", <<>>, v, "source", "plain") : v \in {1, 2}}

Worlds ==
  CASE Mode = "graphs" ->          \* every graph: self imports, cycles, duplicates, missing files ("x" is never there)
         {("a" :> Plain(p)) @@ ("b" :> Plain(q)) @@ ("c" :> Plain(r)) :
            p \in Lists({"a", "b", "c", "x"}, 2), q \in Lists({"a", "b", "c", "x"}, 2), r \in Lists({"a", "b", "c", "x"}, IF Count = 0 THEN 2 ELSE 1)}
    [] Mode = "dups" ->            \* an import listed twice, or missing, anywhere, in files supplied in the same way or not
         {("a" :> File("ok", p, 1, k[1], "plain")) @@ ("b" :> File("ok", q, 1, k[2], "plain")) @@ ("c" :> Plain(<<>>)) @@ ("d" :> File("ok", r, 1, k[3], "plain")) :
            k \in {<<"source", "source", "source">>, <<"source", "proto", "source">>, <<"source", "encoded", "proto">>, <<"encoded", "source", "encoded">>},
            p \in {<<"b">>, <<"d", "b">>, <<"c", "d", "b">>} \cup Lists({"b", "c", "d"}, 3), q \in Lists({"c", "d", "x"}, 3), r \in {<<>>, <<"c">>}}
    [] Mode = "faults" ->          \* sound graphs with one or two files that fail
         {("a" :> File(s, p, 1, k, "plain")) @@ ("b" :> File(t, q, 1, k, "plain")) @@ ("c" :> File(u, <<>>, 1, l, "plain")) :
            p \in Distinct({"b", "c"}, 2), q \in Distinct({"c"}, 1), k \in {"source", "proto"}, l \in {"source", "encoded"},
            s \in {"ok", "link"}, t \in {"ok", "nf", "parse", "link", "custom", "io"}, u \in {"ok", "nf", "parse", "link", "custom", "io"}}
    [] Mode = "shadow" ->          \* files on disk and others, opened by the right path and by a wrong one
         {("a" :> File("ok", p, 1, "source", "plain")) @@ ("b" :> File(t, q, 1, k, "plain")) @@ ("c" :> File(u, <<>>, 1, l, "plain")) :
            p \in Distinct({"b", "c"}, 2), q \in Distinct({"c"}, 1), k \in {"source", "encoded"}, l \in {"source", "proto"}, t \in {"ok", "link", "nf"}, u \in {"ok", "parse", "link"}}
    [] Mode = "flags" ->
         {("a" :> File("ok", p, 1, k, "plain")) @@ ("b" :> File("ok", q, 1, l, "plain")) @@ ("c" :> File("ok", r, 1, m, "plain")) :
            p \in Distinct({"b", "c"}, 2), q \in Distinct({"c"}, 1), r \in {<<>>, <<"d">>}, k, l, m \in {"source", "proto", "encoded"}}
    [] Mode = "options" ->
         {("g" :> g) @@ ("x" :> File("ok", p, 1, "source", s)) @@ ("a" :> File("ok", q, 1, "source", t)) @@ ("b" :> File("ok", r, 1, u, "uses")) :
            g \in Gs, p \in {<<"g">>, <<>>, <<"g", "c">>}, s \in {"defs", "plain"}, t \in {"uses", "plain"}, u \in {"source", "proto"}, q \in {<<"x">>, <<"g", "x">>, <<"g">>}, r \in {<<"a", "x">>, <<"x">>, <<"a">>}}
    [] Mode = "big" ->             \* six files, acyclic or not
         {("a" :> Plain(p)) @@ ("b" :> Plain(q)) @@ ("c" :> Plain(r)) @@ ("d" :> Plain(s)) @@ ("e" :> Plain(t)) @@ ("x" :> Plain(<<>>)) :
            p \in RandomSubset(7, Distinct({"b", "c", "d", "e", "x"}, 3)), q \in RandomSubset(6, Distinct({"c", "d", "e", "x"}, 3)), r \in RandomSubset(5, Distinct({"d", "e", "x"}, 3)),
            s \in Distinct({"e", "x"}, 2) \cup {<<"b">>, <<"e", "a">>}, t \in {<<>>, <<"x">>, <<"x", "c">>}}

Openable == CASE Mode = "big" -> {"a", "b", "c", "d", "e"} [] Mode = "options" -> {"a", "b", "x"} [] OTHER -> {"a", "b", "c"}
Flags4 == [imports : BOOLEAN, sinfo : BOOLEAN]
OpCount == Cardinality({i \in 1..Len(hist) : hist[i].op # "set"})
More == Idle /\ OpCount < Len0

DoOpen == More /\ \E n \in Openable : StartOpen("open", <<n>>)
DoOpenAll == More /\ Mode \in {"flags", "big"} /\ \E n, m \in Openable : n # m /\ StartOpen("openall", <<n, m>>)
DoOpenAt == More /\ Mode = "shadow" /\ \E n \in Openable : StartOpen("openat", <<n>>)
DoFlags == More /\ Mode \in {"flags", "options"} /\ \E f \in Flags4 : f # flags /\ SetFlags(f.imports, f.sinfo)
\* the world changes after a failed open: the file is repaired, or vanishes, or breaks, or imports something else
Changed(n) ==
  LET f == Get(world, n) IN
  IF f.st # "ok" THEN {[f EXCEPT !.st = "ok", !.v = @ + 1], [f EXCEPT !.st = "ok", !.v = @ + 1, !.imps = <<>>]}
  ELSE {[f EXCEPT !.v = @ + 1, !.imps = <<>>], [f EXCEPT !.st = "nf"], [f EXCEPT !.st = "link", !.v = @ + 1]}
DoSet == /\ More /\ Mode \in {"faults", "big"} /\ hist # <<>> /\ Op.op # "set" /\ Op.res.k # "ok"
         /\ Mode = "faults" => \A i \in 1..Len(hist) : hist[i].op # "set"
         /\ \E n \in Openable : (Get(world, n).st # "ok" \/ n \in ToSet(Op.arg)) /\ \E f \in Changed(n) : SetFile(n, f)

\* random worlds for "big" change too
Init == \E w \in Pick(Worlds) : Start(w)
Next == Work \/ DoOpen \/ DoOpenAt \/ DoOpenAll \/ DoFlags \/ DoSet
Spec == Init /\ [][Next]_vars
Done == Idle /\ OpCount = Len0 /\ Op.op # "set"
Emitted == Done => PrintT(ToJson([world |-> first, hist |-> hist]))
===================================================================================
