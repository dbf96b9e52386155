---------------------------------- MODULE Paths ----------------------------------
(***************************************************************************)
(* Paths, include directories and import names, over a directory tree.     *)
(* A path is spelled as a sequence of segments ("" and "." included); an   *)
(* absolute one starts at the root of the tree.  The tree is              *)
(*    f.proto  w/  and below w: f i j .proto, a/ A/ b/ .../ Z/ (Z is a     *)
(*    name that is not UTF-8), a/: f i j .proto b/ google/protobuf/any;    *)
(*    b/ and a/b/: f o .proto; the other directories: f.proto              *)
(* i.proto imports f.proto; j.proto imports google/protobuf/any.proto.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Randomization

Mode == IOEnv.MODE
Count == atoi(IOEnv.SAMPLE)
Pick(S, n) == IF Count = 0 \/ Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)

W == <<"w">>
AnyProto == <<"google", "protobuf", "any.proto">>
DirsWithF == {<<>>, W, W \o <<"a">>, W \o <<"A">>, W \o <<"b">>, W \o <<"a", "b">>, W \o <<"...">>, W \o <<"Z">>}
FilesOnDisk == {d \o <<"f.proto">> : d \in DirsWithF}
            \cup {W \o <<"i.proto">>, W \o <<"j.proto">>, W \o <<"a", "i.proto">>, W \o <<"a", "j.proto">>,
                  W \o <<"b", "o.proto">>, W \o <<"a", "b", "o.proto">>, W \o <<"a">> \o AnyProto}
DirsOnDisk == DirsWithF \cup {W \o <<"a", "google">>, W \o <<"a", "google", "protobuf">>}
P(abs, segs) == [abs |-> abs, segs |-> segs]

(* what the file system makes of a path: the place it denotes, or why none *)
RECURSIVE Walk(_, _)
Walk(at, segs) ==
  IF segs = <<>> THEN [k |-> IF at \in FilesOnDisk THEN "file" ELSE "dir", at |-> at]
  ELSE LET s == segs[1] IN
       IF at \in FilesOnDisk THEN [k |-> "notdir", at |-> at]
       ELSE IF s = ".." THEN IF at = <<>> THEN [k |-> "above", at |-> at] ELSE Walk(SubSeq(at, 1, Len(at) - 1), Tail(segs))
       ELSE IF Append(at, s) \in FilesOnDisk \cup DirsOnDisk THEN Walk(Append(at, s), Tail(segs))
       ELSE [k |-> "missing", at |-> at]
\* empty segments and "." are immaterial (also at the end, where the file system would insist on a directory)
Solid(segs) == SelectSeq(segs, LAMBDA s : s \notin {"", "."})
\* an absolute path somewhere else
Outside(p) == p.abs /\ p.segs # <<>> /\ p.segs[1] = "^"
Denoted(c, p) == IF Outside(p) THEN [k |-> "missing", at |-> <<>>] ELSE Walk(IF p.abs THEN <<>> ELSE c, Solid(p.segs))

(* names *)
Normal(segs) == segs # <<>> /\ \A i \in 1..Len(segs) : segs[i] \notin {"", ".", "..", "Z"}
\* the name of a path under an include directory
Name(inc, p) == LET i == Solid(inc.segs) q == Solid(p.segs) IN
  IF inc.abs = p.abs /\ ~Outside(p) /\ IsPrefix(i, q) /\ Normal(SubSeq(q, Len(i) + 1, Len(q))) THEN SubSeq(q, Len(i) + 1, Len(q)) ELSE <<>>
\* a path that is also a name
Bare(p) == IF ~p.abs /\ p.segs # <<>> /\ p.segs[1] # "." /\ Normal(Solid(p.segs)) THEN Solid(p.segs) ELSE <<>>
Under(inc, name) == P(inc.abs, inc.segs \o name)
SamePath(p, q) == p.abs = q.abs /\ Solid(p.segs) = Solid(q.segs)
Standard(name) == name = AnyProto

VARIABLES cwd, incs, todo, held, done
vars == <<cwd, incs, todo, held, done>>
Held(n) == \E i \in 1..Len(held) : held[i].name = n
HeldFile(n) == held[CHOOSE i \in 1..Len(held) : held[i].name = n]

(* looking a name up: the first include where the file system does not say that it is missing *)
Lookup(n) ==
  LET st(k) == Denoted(cwd, Under(incs[k], n))
      hits == {k \in 1..Len(incs) : st(k).k # "missing"}
  IN IF hits = {} THEN IF Standard(n) THEN [k |-> "ok", name |-> n, inc |-> 0, at |-> <<"std">>] ELSE [k |-> "nf", name |-> n, inc |-> 0, at |-> <<>>]
     ELSE LET k == CHOOSE k \in hits : \A l \in hits : k <= l IN
          [k |-> IF st(k).k = "file" THEN "ok" ELSE "io", name |-> n, inc |-> k, at |-> st(k).at]
Entry(l, imp) == [name |-> l.name, inc |-> l.inc, at |-> l.at, imp |-> imp]
ImportsOf(l) == IF l.at = <<"std">> THEN <<>> ELSE IF Last(l.at) = "i.proto" THEN <<<<"f.proto">>>> ELSE IF Last(l.at) = "j.proto" THEN <<AnyProto>> ELSE <<>>

Resolved(p) == LET ks == {k \in 1..Len(incs) : Name(incs[k], p) # <<>>}
               IN IF ks = {} THEN <<>> ELSE Name(incs[CHOOSE k \in ks : \A l \in ks : k <= l], p)
Shadows(inc, n, p) == inc # 0 /\ ~SamePath(Under(incs[inc], n), p)

Res(k, name, inc) == [k |-> k, name |-> name, inc |-> inc]
\* result, files afterwards
Opened(p) ==
  LET r == Resolved(p)
      n == IF r # <<>> THEN r ELSE Bare(p)
  IN IF n = <<>> THEN <<Res("notincluded", n, 0), held>>
     ELSE IF Held(n)
     THEN LET h == HeldFile(n) IN
          IF r # <<>> /\ Shadows(h.inc, n, p) THEN <<Res("shadowed", n, h.inc), held>>
          ELSE <<Res("ok", n, h.inc), [i \in 1..Len(held) |-> IF held[i].name = n THEN [held[i] EXCEPT !.imp = FALSE] ELSE held[i]]>>
     ELSE LET l == Lookup(n) IN
          IF l.k = "nf" THEN <<Res("notincluded", n, 0), held>>
          ELSE IF l.k = "io" THEN <<Res("io", n, l.inc), held>>
          ELSE IF r # <<>> /\ Shadows(l.inc, n, p) THEN <<Res("shadowed", n, l.inc), held>>
          ELSE LET is == ImportsOf(l)
                   il == IF is # <<>> THEN Lookup(is[1]) ELSE l
               IN IF is = <<>> \/ Held(is[1]) THEN <<Res("ok", n, l.inc), Append(held, Entry(l, FALSE))>>
                  ELSE IF il.k = "nf" THEN <<Res("importnf", n, l.inc), held>>
                  ELSE IF il.k = "io" THEN <<Res("io", is[1], il.inc), held>>
                  ELSE <<Res("ok", n, l.inc), held \o <<Entry(il, TRUE), Entry(l, FALSE)>>>>

\* an include directory asked for the path as if it were a name: names are never absolute, and have no "", "." or ".."
Direct(inc, p) == IF Bare(p) = <<>> \/ Bare(p) # p.segs THEN "nf" ELSE LET d == Denoted(cwd, Under(inc, p.segs)) IN
                  CASE d.k = "file" -> "ok" [] d.k = "missing" -> "nf" [] OTHER -> "io"

Open == /\ todo # <<>>
        /\ LET o == Opened(todo[1]) IN
           /\ held' = o[2]
           /\ done' = Append(done, [path |-> todo[1], res |-> o[1], held |-> o[2],
                                    names |-> [k \in 1..Len(incs) |-> Name(incs[k], todo[1])],
                                    direct |-> [k \in 1..Len(incs) |-> Direct(incs[k], todo[1])]])
        /\ todo' = Tail(todo) /\ UNCHANGED <<cwd, incs>>

-----------------------------------------------------------------------------
Rel(s) == P(FALSE, s)
Abs(s) == P(TRUE, s)
Dots == {Rel(<<>>), Rel(<<".">>), Rel(<<".", "">>), Rel(<<"a">>), Rel(<<".", "a">>), Rel(<<"a", "">>), Rel(<<"a", ".">>), Rel(<<"a", "", "b">>), Rel(<<"b">>),
         Rel(<<"a", "b">>), Rel(<<"..">>), Rel(<<"..", "w">>), Rel(<<"a", "..">>), Rel(<<"a", "..", "b">>), Rel(<<"x">>), Rel(<<"...">>), Rel(<<"A">>), Rel(<<"Z">>), Rel(<<"f.proto">>)}
Incs == Dots \cup {Abs(<<>>), Abs(<<"w">>), Abs(<<"w", "a">>), Abs(<<"w", ".", "a", "">>), Abs(<<"w", "a", "..">>)}
IncLists == {<<>>} \cup {<<p>> : p \in Incs} \cup {<<p, q>> : p, q \in Incs} \cup {<<p, q, r>> : p, q \in Dots, r \in Incs}
Ends == {<<"f.proto">>, <<"o.proto">>, <<"i.proto">>, <<"j.proto">>, <<"x.proto">>, <<"f.proto", "">>, <<"f.proto", "f.proto">>, <<"">>, <<>>, <<"b">>, AnyProto}
Mids == {<<>>} \cup {<<s>> : s \in {"", ".", "..", "a", "b", "...", "Z"}} \cup {<<s, t>> : s \in {".", "..", "a", "b"}, t \in {"", ".", "..", "b"}}
\* what a relative path would be at the root of the file system
Rooted == {Abs(<<"^">> \o i.segs \o m \o e) : i \in {p \in Incs : ~p.abs}, m \in {<<>>, <<"b">>}, e \in {<<"f.proto">>, <<"i.proto">>, <<>>}}
Whole == {P(i.abs, i.segs \o m \o e) : i \in Incs, m \in Mids, e \in Ends} \cup Rooted
Spelled(p) == p.abs \/ p.segs = <<>> \/ p.segs[1] # ""          \* a relative path does not start with a slash
Above(c, p) == Denoted(c, p).k = "above"
PathsOf(c) == {p \in Whole : Spelled(p) /\ ~Above(c, p)}
PathsW == PathsOf(W)
PathsA == PathsOf(W \o <<"a">>)
GoodW == {p \in PathsW : Denoted(W, p).k = "file"}
GoodA == {p \in PathsA : Denoted(W \o <<"a">>, p).k = "file"}

\* the standard files, with few or no include directories
StdIncs == {<<>>} \cup {<<p>> : p \in {Rel(<<>>), Rel(<<".">>), Rel(<<"a">>), Rel(<<"x">>), Abs(<<"w", "a">>)}} \cup {<<p, q>> : p, q \in {Rel(<<".">>), Rel(<<"a">>), Rel(<<"b">>)}}
StdPaths == {Rel(AnyProto), Rel(<<"j.proto">>), Rel(<<"a", "j.proto">>), Rel(<<"f.proto">>), Rel(<<"a">> \o AnyProto), Rel(<<".">> \o AnyProto), Rel(<<"google", "protobuf", "other.proto">>)}

Init ==
  /\ cwd \in {W, W \o <<"a">>}
  /\ incs \in {l \in (IF Mode = "std" THEN StdIncs ELSE Pick(IncLists, Count)) : \A k \in 1..Len(l) : ~Above(cwd, l[k])}
  /\ LET S == IF cwd = W THEN PathsW ELSE PathsA
         G == IF cwd = W THEN GoodW ELSE GoodA
     IN CASE Mode = "one" -> todo \in {<<p>> : p \in Pick(S, Count)}
         [] Mode = "two" -> todo \in {<<p, q>> : p \in Pick(G, Count \div 5), q \in Pick(S, Count \div 10) \cup Pick(G, Count \div 10)}
         [] Mode = "std" -> todo \in {t \in {<<p>> : p \in StdPaths} \cup {<<p, q>> : p, q \in StdPaths} : \A k \in 1..Len(t) : ~Above(cwd, t[k])}
         [] Mode = "near" ->    \* paths under the includes themselves
              todo \in {t \in {<<p>> : p \in Pick(Rooted, 3)} \cup {<<Abs(<<"^">> \o incs[k].segs \o e)>> : k \in {k \in 1..Len(incs) : ~incs[k].abs}, e \in {<<"f.proto">>, <<"b", "f.proto">>}}
                                 \cup UNION {{<<P(incs[k].abs, incs[k].segs \o m \o e)>>, <<P(incs[k].abs, incs[k].segs \o <<"i.proto">>), P(incs[k].abs, incs[k].segs \o m \o e)>>} :
                                 k \in 1..Len(incs), m \in Pick(Mids, 8), e \in Pick(Ends, 6)} : \A i \in 1..Len(t) : Spelled(t[i]) /\ ~Above(cwd, t[i])}
  /\ held = <<>> /\ done = <<>>
Next == Open
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C25, on the tree *)
Correct ==
  \A i \in 1..Len(done) :
    LET d == done[i] p == d.path IN
    \* a name denotes, below its include, what the path denotes
    /\ \A k \in 1..Len(incs) : d.names[k] # <<>> => LET a == Denoted(cwd, p) b == Denoted(cwd, Under(incs[k], d.names[k])) IN a.k = b.k /\ (a.k = "file" => a.at = b.at)
    /\ d.res.k = "ok" =>
         LET h == d.held[CHOOSE j \in 1..Len(d.held) : d.held[j].name = d.res.name] IN
         /\ h.at # <<"std">> => /\ Resolved(p) # <<>> => Denoted(cwd, p) = [k |-> "file", at |-> h.at]
                                \* the file is inside its include directory
                                /\ IsPrefix(Denoted(cwd, incs[h.inc]).at, h.at)
                                /\ h.at = Denoted(cwd, incs[h.inc]).at \o h.name
         /\ ~h.imp
    \* a path that denotes no file is refused, unless it is just a name or that of a standard file
    /\ (Denoted(cwd, p).k # "file" /\ Bare(p) = <<>> /\ ~Standard(Resolved(p))) => d.res.k # "ok"
    /\ d.res.k = "shadowed" => Resolved(p) # <<>> /\ ~SamePath(Under(incs[d.res.inc], d.res.name), p)
    /\ d.res.k = "notincluded" => (Resolved(p) = <<>> /\ Bare(p) = <<>>) \/ \A k \in 1..Len(incs) : Denoted(cwd, Under(incs[k], d.res.name)).k = "missing"
OneEach == \A i, j \in 1..Len(held) : held[i].name = held[j].name => i = j
Emitted == todo = <<>> => PrintT(ToJson([cwd |-> cwd, incs |-> incs, done |-> done]))
===================================================================================
