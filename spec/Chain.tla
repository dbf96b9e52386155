---------------------------------- MODULE Chain ----------------------------------
(***************************************************************************)
(* Resolvers consulted in order.  leaves is the chain, flattened (a chain  *)
(* inside a chain behaves like its members in place).  A query is resolve_ *)
(* path, open_file or a compilation: the path is turned into a name, the   *)
(* file of that name is opened, then the files it imports, then it is      *)
(* linked.  A transition asks one member one question.  In a history the   *)
(* same chain is asked several things, one after the other: it keeps no    *)
(* memory of what it was asked before.                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

Mode == IOEnv.MODE
Count == atoi(IOEnv.SAMPLE)
Pick(S) == IF Count = 0 \/ Cardinality(S) <= Count THEN S ELSE RandomSubset(Count, S)

\* names: a and b are files of the user, g a standard file, u an unknown name like a standard one
\* leaf: kind "rec" (scripted), "set" (descriptor set) or "google"; o: its answer for each name; p: its name for each path
Rec(a, b, g, p) == [kind |-> "rec", o |-> [a |-> a, b |-> b, g |-> g, u |-> "nf"], p |-> p]
NoPath == [rel |-> "", abs |-> ""]
SetLeaf(a, b, g) == [kind |-> "set", o |-> [a |-> a, b |-> b, g |-> g, u |-> "nf"], p |-> NoPath]
Google == [kind |-> "google", o |-> [a |-> "nf", b |-> "nf", g |-> "std", u |-> "nf"], p |-> NoPath]
\* "imp": a file that imports b; "impg": a file that imports g; nfother: not found, but said of another name;
\* iomiss: an I/O error which itself says that something is not found; the others:
\* what a compiler inside the resolver said (an import or the file itself not found, a cycle, a parse error of another file, an import listed twice)
Inner == {"nfimport", "nfpath", "cycle", "parsein", "dup"}
Outs == {"ok", "imp", "impg", "nf", "nfother", "parse", "custom", "io", "iomiss", "link"} \cup Inner
Files == {"ok", "imp", "impg", "link", "std"}
Missing == {"nf", "nfother", "nfimport", "nfpath"}

Chains ==
  CASE Mode = "open" ->
         {[i \in 1..n |-> Rec(f[i], "nf", "nf", NoPath)] : n \in 0..0, f \in {<<>>}}
         \cup {[i \in 1..Len(f) |-> Rec(f[i], "nf", "nf", NoPath)] : f \in UNION {[1..n -> Outs \ {"imp", "impg"}] : n \in 1..3} \cup [1..4 -> {"ok", "nf", "nfother", "nfimport", "parsein", "custom", "io", "iomiss"}]}
    [] Mode = "imports" ->
         {[i \in 1..2 |-> Rec(f[i], g[i], "nf", NoPath)] : f \in [1..2 -> {"imp", "nf", "ok"}], g \in [1..2 -> Outs \ {"imp", "impg"}]}
         \cup {[i \in 1..3 |-> Rec(f[i], g[i], "nf", NoPath)] : f \in [1..3 -> {"imp", "nf"}], g \in [1..3 -> {"ok", "nf", "custom", "parse", "io", "iomiss"}]}
    [] Mode = "paths" ->
         {[i \in 1..Len(p) |-> Rec(f[i], g[i], "nf", p[i])] :
            p \in [1..2 -> [rel : {"", "a", "b", "u"}, abs : {"", "a", "b"}]], f \in [1..2 -> {"ok", "nf", "custom"}], g \in [1..2 -> {"ok", "nf"}]}
    [] Mode = "google" ->
         LET leaf(k, a, g) == IF k = "google" THEN Google ELSE IF k = "set" THEN SetLeaf(IF a \in Files THEN a ELSE "nf", "nf", IF g = "ok" THEN g ELSE "nf") ELSE Rec(a, "nf", g, NoPath)
         IN {[i \in 1..Len(k) |-> leaf(k[i], a[i], g[i])] : k \in [1..3 -> {"rec", "set", "google"}], a \in [1..3 -> {"impg", "nf"}], g \in [1..3 -> {"ok", "nf", "io"}]}
    [] Mode = "history" ->
         {[i \in 1..n |-> Rec(f[i], g[i], "nf", IF i = 1 THEN [rel |-> "b", abs |-> ""] ELSE [rel |-> "a", abs |-> "b"])] : n \in 2..2, f \in [1..2 -> {"ok", "nf", "nfother", "custom"}], g \in [1..2 -> {"ok", "nf", "parse"}]}
         \cup {[i \in 1..3 |-> Rec(f[i], g[i], "nf", NoPath)] : f \in [1..3 -> {"ok", "nf"}], g \in [1..3 -> {"ok", "nf"}]}
         \cup {[i \in 1..2 |-> IF i = j THEN SetLeaf(f[i], g[i], "nf") ELSE Rec(f[i], g[i], "nf", NoPath)] : j \in 1..2, f \in [1..2 -> {"ok", "nf"}], g \in [1..2 -> {"ok", "nf"}]}
Queries ==
  CASE Mode = "open" -> {[q |-> "open", x |-> "a"], [q |-> "compile", x |-> "a"]}
    [] Mode = "imports" -> {[q |-> "compile", x |-> "a"], [q |-> "open", x |-> "b"]}
    [] Mode = "paths" -> {[q |-> "path", x |-> "rel"], [q |-> "path", x |-> "abs"], [q |-> "compile", x |-> "rel"], [q |-> "compile", x |-> "abs"]}
    [] Mode = "history" -> {[q |-> "open", x |-> "a"], [q |-> "open", x |-> "b"]}
    [] Mode = "google" -> {[q |-> "open", x |-> "g"], [q |-> "open", x |-> "u"], [q |-> "compile", x |-> "a"], [q |-> "compile", x |-> "g"]}

\* in a history: what is asked after the first query
Asked == {[q |-> "open", x |-> "a"], [q |-> "open", x |-> "b"], [q |-> "path", x |-> "rel"], [q |-> "path", x |-> "abs"]}
Rests == IF Mode = "history" THEN [1..atoi(IOEnv.HISTORY) -> Asked] ELSE {<<>>}

VARIABLES leaves, query, rest, past, phase, i, name, by, files, calls, res
vars == <<leaves, query, rest, past, phase, i, name, by, files, calls, res>>

R(k, x, who) == [k |-> k, x |-> x, who |-> who]
Running == R("running", "", 0)

Start(q) == IF q.q = "open" THEN "open" ELSE "path"
Init == /\ leaves \in Pick(Chains) /\ query \in Queries /\ rest \in Rests /\ past = <<>>
        /\ phase = Start(query)
        /\ i = 1 /\ name = (IF query.q = "open" THEN query.x ELSE "") /\ by = "" /\ files = <<>> /\ calls = <<>> /\ res = Running

\* a plain name given to compile is a path nobody resolves, and names itself
PathOf(x, leaf) == IF x \in DOMAIN leaf.p THEN leaf.p[x] ELSE ""
Itself(x) == IF x = "rel" THEN "a" ELSE IF x = "abs" THEN "" ELSE x
Record(what, x) == calls' = IF leaves[i].kind = "rec" THEN Append(calls, <<i, what, x>>) ELSE calls

AskPath ==
  /\ res = Running /\ phase = "path"
  /\ IF i <= Len(leaves)
     THEN /\ Record("path", query.x)
          /\ LET n == PathOf(query.x, leaves[i]) IN
             IF n = "" THEN i' = i + 1 /\ UNCHANGED <<phase, name, res>>
             ELSE IF query.q = "path" THEN res' = R("name", n, i) /\ UNCHANGED <<i, phase, name>>
             ELSE i' = 1 /\ phase' = "open" /\ name' = n /\ UNCHANGED res
     ELSE /\ UNCHANGED calls
          /\ IF query.q = "path" THEN res' = R("noname", "", 0) /\ UNCHANGED <<i, phase, name>>
             ELSE IF Itself(query.x) = "" THEN res' = R("notincluded", query.x, 0) /\ UNCHANGED <<i, phase, name>>
             ELSE i' = 1 /\ phase' = "open" /\ name' = Itself(query.x) /\ UNCHANGED res
  /\ UNCHANGED <<leaves, query, rest, past, by, files>>

ImportOf(o) == CASE o = "imp" -> "b" [] o = "impg" -> "g" [] OTHER -> ""
Link(fs) == \* fs: files read, innermost last; linked from the last to the first
  IF \E k \in 1..Len(fs) : fs[k].o = "link" THEN LET k == CHOOSE k \in 1..Len(fs) : fs[k].o = "link" /\ \A l \in (k + 1)..Len(fs) : fs[l].o # "link" IN R("link", fs[k].n, fs[k].who)
  ELSE R("compiled", "", 0)

AskFile ==
  /\ res = Running /\ phase = "open"
  /\ IF i > Len(leaves)
     THEN /\ UNCHANGED <<calls, i, name, by, files>>
          /\ res' = IF query.q = "open" THEN R("nf", name, 0) ELSE IF by # "" THEN R("importnf", name, 0) ELSE R("notincluded", query.x, 0)
     ELSE /\ Record("open", name)
          /\ LET o == leaves[i].o[name] IN
             IF o \in Missing THEN i' = i + 1 /\ UNCHANGED <<res, name, by, files>>
             ELSE IF o \notin Files THEN res' = R(o, name, i) /\ UNCHANGED <<i, name, by, files>>
             ELSE LET fs == Append(files, [n |-> name, o |-> o, who |-> i]) IN
                  IF query.q = "open" THEN res' = R("file", name, i) /\ files' = fs /\ UNCHANGED <<i, name, by>>
                  ELSE IF ImportOf(o) # "" THEN files' = fs /\ by' = name /\ name' = ImportOf(o) /\ i' = 1 /\ UNCHANGED res
                  ELSE res' = Link(fs) /\ files' = fs /\ UNCHANGED <<i, name, by>>
  /\ UNCHANGED <<leaves, query, rest, past, phase>>

Answer == [query |-> query, calls |-> calls, files |-> files, res |-> res]
AskNext ==
  /\ res # Running /\ rest # <<>>
  /\ past' = Append(past, Answer) /\ query' = Head(rest) /\ rest' = Tail(rest)
  /\ phase' = Start(query') /\ i' = 1 /\ name' = (IF query'.q = "open" THEN query'.x ELSE "") /\ by' = "" /\ files' = <<>> /\ calls' = <<>> /\ res' = Running
  /\ UNCHANGED leaves

Next == AskPath \/ AskFile \/ AskNext
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* the answer, decided without consulting in steps
FirstNotMissing(n) == IF \E k \in 1..Len(leaves) : leaves[k].o[n] \notin Missing
                      THEN CHOOSE k \in 1..Len(leaves) : leaves[k].o[n] \notin Missing /\ \A l \in 1..(k - 1) : leaves[l].o[n] \in Missing
                      ELSE 0
InOrder == res # Running =>
  /\ res.k \in {"parse", "custom", "io", "iomiss", "cycle", "parsein", "dup"} => res.who = FirstNotMissing(res.x) /\ leaves[res.who].o[res.x] = res.k
  /\ res.k \in {"nf", "importnf"} => FirstNotMissing(res.x) = 0
  /\ \A k \in 1..Len(files) : files[k].who = FirstNotMissing(files[k].n)
  /\ res.k = "name" => /\ leaves[res.who].p[query.x] = res.x
                       /\ \A l \in 1..(res.who - 1) : leaves[l].p[query.x] = ""
\* nobody is asked twice for the same thing, and never out of order within one question
Once == \A a, b \in 1..Len(calls) : a < b => calls[a] # calls[b] /\ (calls[a][2] = calls[b][2] /\ calls[a][3] = calls[b][3] => calls[a][1] < calls[b][1])
\* the same question has the same answer, whatever was asked in between
NoMemory == res # Running => \A k \in 1..Len(past) : past[k].query = query => past[k] = Answer
Emitted == res # Running /\ rest = <<>> => PrintT(ToJson([leaves |-> leaves, past |-> past, query |-> query, calls |-> calls, files |-> files, res |-> res]))
===================================================================================
