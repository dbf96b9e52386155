--------------------------------- MODULE Texts ---------------------------------
(* helpers to write scenario texts *)
EXTENDS ProtoInv

(* t with @ replaced by x, ` by y and ~ by a newline *)
Fill(t, x, y) ==
  FlattenSeq([i \in 1..Len(t) |->
     LET c == SubSeq(t, i, i) IN
     IF c = "@" THEN x ELSE IF c = "`" THEN y ELSE IF c = "~" THEN <<10>> ELSE <<CodeTab[c]>>])
F1(t, x) == Fill(t, x, <<>>)
F2(t, x, y) == Fill(t, Bytes(x), Bytes(y))
FS(t, x) == Fill(t, Bytes(x), <<>>)
All(ts) == {Bytes(t) : t \in ts}

\* sequences over S of length at most n / exactly n
RECURSIVE SeqN(_, _)
SeqN(S, n) == IF n = 0 THEN {<<>>} ELSE {<<x>> \o q : x \in S, q \in SeqN(S, n - 1)}
SeqUpTo(S, n) == UNION {SeqN(S, k) : k \in 0..n}
\* the concatenations of up to n members of S (a set of byte strings)
Cats(S, n) == {FlattenSeq(q) : q \in SeqUpTo(S, n)}

\* a space-separated text as the sequence of its words
RECURSIVE WordsOf(_, _, _, _)
WordsOf(b, i, cur, acc) ==
  IF i > Len(b) THEN IF cur = <<>> THEN acc ELSE Append(acc, cur)
  ELSE IF b[i] = 32 THEN WordsOf(b, i + 1, <<>>, IF cur = <<>> THEN acc ELSE Append(acc, cur))
  ELSE WordsOf(b, i + 1, Append(cur, b[i]), acc)
Split(t) == WordsOf(Bytes(t), 1, <<>>, <<>>)

\* the words q, separated by sep, except that the gap before word k is x
\* (k = Len(q) + 1: after the last word)
RECURSIVE Join(_, _, _, _, _)
Join(q, sep, k, x, i) ==
  IF i > Len(q) THEN IF k = i THEN x ELSE <<>>
  ELSE (IF i = k THEN x ELSE IF i = 1 THEN <<>> ELSE sep) \o q[i] \o Join(q, sep, k, x, i + 1)

ScalarsQ == {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
             "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
IntTypes == {"int32", "int64", "uint32", "uint64", "sint32", "sint64",
             "fixed32", "fixed64", "sfixed32", "sfixed64"}
Syntaxes == {"", "syntax = 'proto2'; ", "syntax = 'proto3'; "}
================================================================================
