---------------------------------- MODULE Forms ----------------------------------
(***************************************************************************)
(* The same files supplied in different forms: as source text, from disk,  *)
(* as a parsed descriptor (handed over or converted), as encoded bytes, or *)
(* in a descriptor set (given or decoded).  A world is what each file      *)
(* contains and the form it comes in; the files are opened one after the   *)
(* other.  A transition opens one file.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Randomization

Count == atoi(IOEnv.SAMPLE)
Pick(S) == IF Count = 0 \/ Cardinality(S) <= Count THEN S ELSE RandomSubset(Count, S)

Forms == {"source", "disk", "desc", "from", "bytes", "set", "setbytes"}
Text == {"source", "disk"}                     \* the compiler knows the source
\* a imports b, and b imports c where it says so
Names == {"a", "b", "c"}
Contents == [a |-> {"imp", "opt", "link", "syntax", "dup", "comments", "public"}, b |-> {"plain", "ext", "link", "syntax", "imp", "gone", "cycle", "public"}, c |-> {"plain", "link", "ext"}]
\* no descriptor is had of a file that is not well formed
Possible(what, form) == \A n \in Names : what[n] = "syntax" => form[n] \in Text

VARIABLES what, form, todo, held, hist, calls
vars == <<what, form, todo, held, hist, calls>>
ImportsOf(n) == CASE n = "a" -> (IF what.a = "dup" THEN <<"b", "b">> ELSE <<"b">>)
                  [] n = "b" -> (CASE what.b \in {"imp", "public"} -> <<"c">> [] what.b = "gone" -> <<"gone">> [] what.b = "cycle" -> <<"a">> [] OTHER -> <<>>)
                  [] OTHER -> <<>>
\* a uses B of b, or with "opt" an extension b declares
Links(n) == CASE what[n] = "link" -> FALSE
              [] n = "a" /\ what.a = "opt" -> what.b = "ext"
              [] OTHER -> TRUE
Has(h, n) == \E i \in 1..Len(h) : h[i].n = n
R(k, n, at, x) == [k |-> k, n |-> n, at |-> at, x |-> x]        \* at: does the error point into n
OkR == R("ok", "", FALSE, "")

\* <<result, held, calls>>: loading n, with the stack of files being loaded
RECURSIVE Load(_, _, _, _)
RECURSIVE Imports(_, _, _, _, _)
Load(n, imp, h, stack) ==
  IF n = "gone" THEN <<R("nf", n, FALSE, ""), h, <<n>>>>
  ELSE IF what[n] = "syntax" THEN <<R("parse", n, TRUE, ""), h, <<n>>>>
  ELSE LET r == Imports(n, ImportsOf(n), {}, h, stack \o <<n>>) IN
       IF r[1].k # "ok" THEN <<r[1], r[2], <<n>> \o r[3]>>
       ELSE IF ~Links(n) THEN <<R("link", n, form[n] \in Text, ""), r[2], <<n>> \o r[3]>>
       ELSE <<OkR, Append(r[2], [n |-> n, imp |-> imp]), <<n>> \o r[3]>>
Imports(n, q, seen, h, stack) ==
  IF q = <<>> THEN <<OkR, h, <<>>>>
  ELSE IF q[1] \in seen THEN <<R("dup", n, form[n] \in Text, q[1]), h, <<>>>>
  ELSE IF \E i \in 1..Len(stack) : stack[i] = q[1] THEN <<R("cycle", q[1], FALSE, FoldLeft(LAMBDA x, y : x \o y \o " ", "", stack) \o q[1]), h, <<>>>>
  ELSE LET r == IF Has(h, q[1]) THEN <<OkR, h, <<>>>> ELSE Load(q[1], TRUE, h, stack) IN
       IF r[1].k = "nf" THEN <<R("importnf", n, form[n] \in Text, q[1]), r[2], r[3]>>
       ELSE IF r[1].k # "ok" THEN r
       ELSE LET s == Imports(n, Tail(q), seen \cup {q[1]}, r[2], stack) IN <<s[1], s[2], r[3] \o s[3]>>

Open ==
  /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<what, form>>
  /\ LET n == todo[1] IN
     IF Has(held, n)
     THEN /\ held' = [i \in 1..Len(held) |-> IF held[i].n = n THEN [held[i] EXCEPT !.imp = FALSE] ELSE held[i]]
          /\ calls' = <<>> /\ hist' = Append(hist, [n |-> n, res |-> OkR, held |-> held', calls |-> <<>>])
     ELSE LET r == Load(n, FALSE, held, <<>>) IN
          held' = r[2] /\ calls' = r[3] /\ hist' = Append(hist, [n |-> n, res |-> r[1], held |-> r[2], calls |-> r[3]])

Worlds == {w \in [a : Contents.a, b : Contents.b, c : Contents.c] : w.b \notin {"imp", "public"} => w.c = "plain"}
Init == /\ what \in Worlds
        /\ form \in Pick([Names -> Forms]) /\ Possible(what, form)
        /\ todo \in {<<"a", "b">>, <<"b", "a">>}
        /\ held = <<>> /\ hist = <<>> /\ calls = <<>>
Next == Open
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what is held, and whether opening succeeds, is decided without the forms
Sound(n) == LET reach == IF n = "a" THEN {"a", "b"} \cup (IF what.b \in {"imp", "public"} THEN {"c"} ELSE {}) ELSE IF what.b \in {"imp", "public"} THEN {"b", "c"} ELSE {"b"} IN
            /\ \A m \in reach : what[m] # "syntax" /\ Links(m) /\ what[m] \notin {"gone", "dup"}
            /\ what.b # "cycle"
FormBlind == \A i \in 1..Len(hist) : (hist[i].res.k = "ok") = Sound(hist[i].n)
Once == \A i \in 1..Len(held) : \A j \in 1..Len(held) : held[i].n = held[j].n => i = j
Pointed == \A i \in 1..Len(hist) : hist[i].res.at => form[hist[i].res.n] \in Text
Emitted == todo = <<>> => PrintT(ToJson([what |-> what, form |-> form, hist |-> hist]))
==================================================================================
