---------------------------------- MODULE Disk ----------------------------------
(***************************************************************************)
(* One file sought in two include directories whose state changes, by     *)
(* several routes: what is reported for each cause, and that the cause is  *)
(* reported as what it is now, however the file is reached.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, Randomization

Count == atoi(IOEnv.SAMPLE)
OpCount == atoi(IOEnv.LEN)
Pick(S, n) == IF n = 0 \/ Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)

Fine == {"ok", "empty", "changed", "linked"}
Causes == [missing |-> "nf", dangling |-> "nf", syntax |-> "parse", unsized |-> "parse", utf8 |-> "utf8", utf8end |-> "utf8", utf8long |-> "utf8", large |-> "large",
           dir |-> "io", loop |-> "io", notdir |-> "io", socket |-> "io", noaccess |-> "io", noparent |-> "nf"]
Stats == Fine \cup DOMAIN Causes
Class(s) == IF s \in Fine THEN "ok" ELSE Causes[s]
\* whose fault: exactly one of three kinds
Kind(c) == CASE c = "nf" -> "notfound" [] c \in {"parse", "utf8", "large"} -> "parse" [] c = "io" -> "io" [] OTHER -> "none"
Routes == {"file", "include", "chain", "root", "import", "deep", "setimport"}

\* nm: the name sought is a usual one, or one the file system refuses
VARIABLES disk, first, held, hist, nm
vars == <<disk, first, held, hist, nm>>
Dirs == <<"A", "B">>

\* looking in the directories in order, from the k-th
RECURSIVE Look(_)
Look(k) == IF k > 2 THEN [k |-> "nf", dir |-> "", st |-> ""]
           ELSE LET c == IF nm = "plain" THEN Class(disk[Dirs[k]]) ELSE "io" IN IF c = "nf" THEN Look(k + 1) ELSE [k |-> c, dir |-> Dirs[k], st |-> disk[Dirs[k]]]
\* file and include only know the first directory
OnlyA == [k |-> IF nm = "plain" THEN Class(disk["A"]) ELSE "io", dir |-> "A", st |-> disk["A"]]
Here == [k |-> "held", dir |-> "", st |-> held]

Answer(r) ==
  LET l == CASE r \in {"file", "include"} -> OnlyA
             [] r \in {"root", "import", "deep"} /\ held # "" -> Here
             [] OTHER -> Look(1)
  IN IF l.k # "nf" THEN l
     ELSE [l EXCEPT !.k = CASE r = "root" -> "notincluded" [] r \in {"import", "deep", "setimport"} -> "importnf" [] OTHER -> "nf", !.dir = ""]

Ask(r) ==
  LET a == Answer(r) IN
  /\ hist' = Append(hist, [op |-> "ask", route |-> r, res |-> a, dir |-> "", to |-> ""])
  /\ held' = IF r \in {"root", "import", "deep"} /\ a.k = "ok" THEN a.dir \o a.st ELSE held
  /\ UNCHANGED <<disk, first, nm>>
Change(d, s) ==
  /\ nm = "plain" /\ disk[d] # s /\ disk' = [disk EXCEPT ![d] = s]
  /\ hist' = Append(hist, [op |-> "change", route |-> "", res |-> Here, dir |-> d, to |-> s])
  /\ UNCHANGED <<first, held, nm>>

Asks == Cardinality({i \in 1..Len(hist) : hist[i].op = "ask"})
LastOp == IF hist = <<>> THEN "change" ELSE hist[Len(hist)].op
Init == /\ nm \in {"plain", "long", "nul"}
        /\ disk \in [{"A", "B"} -> Stats] /\ (nm # "plain" => disk = [A |-> "missing", B |-> "missing"]) /\ first = disk /\ held = "" /\ hist = <<>>
Next == /\ Asks < OpCount
        /\ \/ \E r \in Pick(Routes, Count) : Ask(r)
           \/ LastOp = "ask" /\ \E d \in Pick({"A", "B"}, Count), s \in Pick(Stats, Count) : Change(d, s)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C27
OneKind == \A i \in 1..Len(hist) : hist[i].op = "ask" =>
  LET r == hist[i].res IN
  /\ r.k \in {"ok", "held", "nf", "notincluded", "importnf", "parse", "utf8", "large", "io"}
  /\ r.dir # "" /\ r.k # "held" => (nm = "plain" => Class(r.st) = r.k)
\* nothing but absence makes the search go on
NoMask == \A i \in 1..Len(hist) : hist[i].op = "ask" /\ hist[i].res.dir = "B" => hist[i].route \notin {"file", "include"}
Emitted == (Asks = OpCount /\ LastOp = "ask") => PrintT(ToJson([nm |-> nm, disk |-> first, hist |-> hist]))
===================================================================================
