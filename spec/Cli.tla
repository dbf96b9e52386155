----------------------------------- MODULE Cli -----------------------------------
(***************************************************************************)
(* The command line tool: reading the arguments one by one, then compiling *)
(* the files, then writing the output.  The files on disk are              *)
(*   a (imports b)  b  m (imports a missing one)  bad (no valid syntax)    *)
(*   o (an extension option, imports the standard descriptor.proto)       *)
(*   inc/c (imports b)  inc/b                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Randomization

Mode == IOEnv.MODE
Count == atoi(IOEnv.SAMPLE)

Opt(n, v, sep) == [t |-> "opt", n |-> n, v |-> v, sep |-> sep]       \* sep: " " (next argument), "=" or "" (joined)
Flag(n) == [t |-> "flag", n |-> n, v |-> "", sep |-> ""]
Plain(v) == [t |-> "plain", n |-> "", v |-> v, sep |-> ""]
Odd(n) == [t |-> "odd", n |-> n, v |-> "", sep |-> ""]
INames == {"-I", "--include", "--proto_path"}
ONames == {"-o", "--output", "--descriptor_set_out"}
Seps(n) == IF n \in {"-I", "-o"} THEN {" ", "=", ""} ELSE {" ", "="}
Incl == {Opt(n, v, s) : n \in INames, v \in {".", "inc", "nope", "b.proto"}, s \in {" ", "=", ""}}
Outs == {Opt(n, v, s) : n \in ONames, v \in {"out", "old", "no/out", "-", "inc", "inc/out", "b.proto"}, s \in {" ", "=", ""}}
Legal(S) == {x \in S : x.sep \in Seps(x.n)}
FNames == {"--include-imports", "--include_imports", "--include-source-info", "--include_source_info"}
Unwritable == {"no/out", "inc"}    \* no such directory, a directory
Flags == {Flag(n) : n \in FNames}
Plains == {Plain(v) : v \in {"a.proto", "b.proto", "./a.proto", "inc/c.proto", "c.proto", "o.proto", "m.proto", "bad.proto", "nope.proto"}}
Odds == {Odd(n) : n \in {"--", "--unknown", "-x", "--include_imports=true", "-o", "--include", "--help", "-h", "--inc"}} \cup {Plain(""), Opt("-I", "", " "), Opt("--output", "", "=")}
Good == {Plain(v) : v \in {"a.proto", "b.proto", "./a.proto", "inc/c.proto", "o.proto"}}

VARIABLES args, i, st, files, incs, out, imports, sinfo, pend, names, held
vars == <<args, i, st, files, incs, out, imports, sinfo, pend, names, held>>

(* one argument after the other *)
Tokens(x) == CASE x.t = "opt" -> IF x.sep = " " THEN <<x.n, x.v>> ELSE <<x.n \o x.sep \o x.v>> [] x.t = "plain" -> <<x.v>> [] OTHER -> <<x.n>>
Usage == st' = "usage" /\ UNCHANGED <<args, i, files, incs, out, imports, sinfo, pend, names, held>>
Set(n, v) == IF v = "" THEN Usage
             ELSE IF n \in INames THEN incs' = Append(incs, v) /\ pend' = "" /\ i' = i + 1 /\ UNCHANGED <<args, st, files, out, imports, sinfo, names, held>>
             ELSE IF out # "" THEN Usage
             ELSE out' = v /\ pend' = "" /\ i' = i + 1 /\ UNCHANGED <<args, st, files, incs, imports, sinfo, names, held>>
Arg ==
  /\ st \in {"args", "rest"} /\ i <= Len(args)
  /\ LET x == args[i] IN
     IF st = "rest" THEN IF (x.t = "plain" /\ x.v = "") \/ (x.t = "opt" /\ x.sep = " " /\ x.v = "") THEN Usage
                         ELSE files' = files \o Tokens(x) /\ i' = i + 1 /\ UNCHANGED <<args, st, incs, out, imports, sinfo, pend, names, held>>
     ELSE IF pend # "" THEN IF x.t = "plain" THEN Set(pend, x.v) ELSE Usage
     ELSE CASE x.t = "opt" -> Set(x.n, x.v)
            [] x.t = "flag" -> IF x.n \in {"--include-imports", "--include_imports"}
                               THEN IF imports THEN Usage ELSE imports' = TRUE /\ i' = i + 1 /\ UNCHANGED <<args, st, files, incs, out, sinfo, pend, names, held>>
                               ELSE IF sinfo THEN Usage ELSE sinfo' = TRUE /\ i' = i + 1 /\ UNCHANGED <<args, st, files, incs, out, imports, pend, names, held>>
            [] x.t = "plain" -> IF x.v = "" THEN Usage ELSE files' = Append(files, x.v) /\ i' = i + 1 /\ UNCHANGED <<args, st, incs, out, imports, sinfo, pend, names, held>>
            [] x.n = "--" -> st' = "rest" /\ i' = i + 1 /\ UNCHANGED <<args, files, incs, out, imports, sinfo, pend, names, held>>
            [] x.n \in {"-o", "--include"} -> pend' = x.n /\ i' = i + 1 /\ UNCHANGED <<args, st, files, incs, out, imports, sinfo, names, held>>
            [] x.n \in {"--help", "-h"} -> st' = "help" /\ UNCHANGED <<args, i, files, incs, out, imports, sinfo, pend, names, held>>
            [] OTHER -> Usage
EndOfArgs ==
  /\ st \in {"args", "rest"} /\ i > Len(args)
  /\ IF pend # "" \/ files = <<>> THEN Usage
     ELSE /\ st' = "open" /\ i' = 1 /\ incs' = (IF incs = <<>> THEN <<".">> ELSE incs)
          /\ UNCHANGED <<args, files, out, imports, sinfo, pend, names, held>>

(* the files *)
Disk == [x \in {".", "inc"} |-> IF x = "." THEN {"a.proto", "b.proto", "m.proto", "bad.proto", "o.proto", "inc/c.proto", "inc/b.proto"} ELSE {"c.proto", "b.proto"}]
OnDisk(inc, n) == inc \in DOMAIN Disk /\ n \in Disk[inc]
Where(n) == LET ks == {k \in 1..Len(incs) : OnDisk(incs[k], n)} IN
            IF ks # {} THEN incs[CHOOSE k \in ks : \A l \in ks : k <= l] ELSE IF n = "google/protobuf/descriptor.proto" THEN "std" ELSE ""
\* an include which is itself a file: nothing can be looked up below it, and nobody is asked after it
NoDirectory == {"a.proto", "./a.proto", "b.proto", "m.proto", "bad.proto", "o.proto", "inc/c.proto"}
Blocked(n) == \E k \in 1..Len(incs) : incs[k] \in NoDirectory /\ \A l \in 1..(k - 1) : ~OnDisk(incs[l], n)
\* the path is under the include: its name (paths of the family are spelled so that this is a table)
NameIn(inc, p) == CASE inc = "inc" -> (IF p = "inc/c.proto" THEN "c.proto" ELSE "") [] inc = "." -> (IF p = "./a.proto" THEN "a.proto" ELSE p) [] OTHER -> ""
Resolved(p) == LET ks == {k \in 1..Len(incs) : NameIn(incs[k], p) # ""} IN IF ks = {} THEN "" ELSE incs[CHOOSE k \in ks : \A l \in ks : k <= l]
ImportsOf(n) == CASE n = "a.proto" -> <<"b.proto">> [] n \in {"c.proto", "inc/c.proto"} -> <<"b.proto">> [] n = "m.proto" -> <<"gone.proto">> [] n = "o.proto" -> <<"google/protobuf/descriptor.proto">> [] OTHER -> <<>>
Has(n) == \E k \in 1..Len(held) : held[k].n = n
Failed == st' = "failed" /\ UNCHANGED <<args, i, files, incs, out, imports, sinfo, pend, names, held>>
Opened(h) == held' = h /\ i' = i + 1 /\ UNCHANGED <<args, st, files, incs, out, imports, sinfo, pend, names>>
OpenFile ==
  /\ st = "open" /\ i <= Len(files)
  /\ LET p == files[i]
         r == Resolved(p)
         n == IF r # "" THEN NameIn(r, p) ELSE IF p = "./a.proto" THEN "" ELSE p
         w == IF n = "" THEN "" ELSE Where(n)
         q == ImportsOf(n)
         new(m, imp) == [n |-> m, w |-> Where(m), imp |-> imp]
     IN IF n = "" \/ w = "" \/ n = "bad.proto" \/ Blocked(n) THEN Failed
        ELSE IF r # "" /\ r # w THEN Failed                                  \* another include shadows the path
        ELSE IF Has(n) THEN Opened([k \in 1..Len(held) |-> IF held[k].n = n THEN [held[k] EXCEPT !.imp = FALSE] ELSE held[k]])
        ELSE IF q # <<>> /\ (Where(q[1]) = "" \/ Blocked(q[1])) THEN Failed
        ELSE IF q = <<>> \/ Has(q[1]) THEN Opened(Append(held, new(n, FALSE)))
        ELSE Opened(held \o <<new(q[1], TRUE), new(n, FALSE)>>)
EndOfFiles ==
  /\ st = "open" /\ i > Len(files)
  /\ st' = (IF out \in Unwritable THEN "failed" ELSE "done")
  /\ names' = (IF out = "" THEN <<>> ELSE SelectSeq(held, LAMBDA h : imports \/ ~h.imp))
  /\ UNCHANGED <<args, i, files, incs, out, imports, sinfo, pend, held>>

Sample(n, S) == RandomSubset(n, S)
Start(S, T, k) == {q \o <<x>> : q \in S, x \in T}
Argv == CASE Mode = "each" -> \* every spelling of every argument, with a file
               {<<x, Plain("a.proto")>> : x \in Legal(Incl) \cup Legal(Outs) \cup Flags \cup Plains \cup Odds}
               \cup {<<Plain("a.proto"), x>> : x \in Legal(Incl) \cup Legal(Outs) \cup Flags \cup Plains \cup Odds}
               \cup {<<x>> : x \in Legal(Incl) \cup Legal(Outs) \cup Flags \cup Plains \cup Odds} \cup {<<>>}
          [] Mode = "good" -> UNION {RandomSubset(Count, [1..k -> Legal(Incl) \cup Legal(Outs) \cup Flags \cup Good]) : k \in 3..5}
                              \cup {<<o>> \o q : o \in {Opt("-o", "out", " "), Opt("--output", "old", "=")}, q \in RandomSubset(Count, [1..4 -> {Opt("-I", ".", ""), Opt("-I", "inc", " ")} \cup Flags \cup Good])}
          [] Mode = "any" -> UNION {RandomSubset(Count, [1..k -> Legal(Incl) \cup Legal(Outs) \cup Flags \cup Plains \cup Odds]) : k \in 2..5}
          [] Mode = "flags" -> {<<Opt("-o", "out", " ")>> \o f \o g \o h : f \in {<<>>, <<Flag("--include_imports")>>}, g \in {<<>>, <<Flag("--include_source_info")>>},
                                  h \in UNION {[1..k -> Good] : k \in 1..2}}
Init == /\ args \in Argv
        /\ i = 1 /\ st = "args" /\ files = <<>> /\ incs = <<>> /\ out = "" /\ imports = FALSE /\ sinfo = FALSE /\ pend = "" /\ names = <<>> /\ held = <<>>
Next == Arg \/ EndOfArgs \/ OpenFile \/ EndOfFiles
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Over == st \in {"usage", "help", "failed", "done"}
\* C29 on the model: output is only written on success, and only when asked for
Written == Over /\ st = "done" /\ out # ""
Sane == /\ (st = "done" => files # <<>> /\ \A k \in 1..Len(held) : ~held[k].imp => \E j \in 1..Len(files) : files[j] \in {held[k].n, "./" \o held[k].n, "inc/" \o held[k].n})
        /\ (st = "done" /\ out # "" => names # <<>>)
        /\ (Over /\ st # "done" => names = <<>> \/ out \in Unwritable)
        \* every argument was used, once
        /\ (st \in {"open", "done", "failed"} => Len(files) <= Len(args) * 2)
Emitted == Over => PrintT(ToJson([args |-> FlattenSeq([k \in 1..Len(args) |-> Tokens(args[k])]), st |-> st, files |-> files, incs |-> incs, out |-> out,
                                  imports |-> imports, sinfo |-> sinfo, names |-> names]))
===================================================================================
