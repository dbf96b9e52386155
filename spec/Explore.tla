------------------------------- MODULE Explore -------------------------------
(***************************************************************************)
(* The control graph of the parser.  A state is a text read so far and the *)
(* machine that read it; two states are the same (VIEW) when the machine   *)
(* is at the same place of the grammar.  From every state every token of   *)
(* the alphabet is read.  Each transition is one test: the text that       *)
(* reaches the state, the token, and the shortest text that completes the  *)
(* file - or, after a syntax error, a text from which the parser has to    *)
(* recover - with the specified outcome.                                   *)
(***************************************************************************)
EXTENDS ProtoInv, Json, IOUtils

CONSTANTS MaxStack,      \* bound on the length of the grammar stack
          MaxOpen        \* bound on the number of open message bodies

Words == {"syntax", "package", "import", "public", "weak", "option", "message", "enum", "service",
          "extend", "oneof", "reserved", "extensions", "to", "max", "rpc", "returns", "stream",
          "optional", "required", "repeated", "group", "map", "int32", "string", "inf", "true",
          "x", "Y", "_z", ";", "{", "}", "(", ")", "[", "]", "<", ">", "=", ",", ".", "-", "+", ":", "/",
          "1", "0", "2.5", "'s'", "'proto3'", "\"proto2\"", "\"a.b\"", "1f", "09", "'\\q'", "$", "1x"}
Eof == <<>>
Alphabet == {RawBytes(w) : w \in Words} \cup {Eof}

(* the shortest text that completes what is on the stack *)
Shortest(n) ==
  CASE n \in {"file", "start", "strings", "fullrest", "opts", "groupopts", "ranges", "rangeend", "stream",
              "agg"} -> ""
    [] n = "synval" -> "'proto2'"
    [] n = "string" -> "'s'"
    [] n = "fullident" -> "x"
    [] n = "importkind" -> "'s'"
    [] n \in {"msgbody", "extbody", "oneofbody", "enumbody", "svcbody", "rpcbody"} -> "}"
    [] n = "fieldkind" -> "x y = 1 ;"
    [] n \in {"fieldtype", "type", "typename"} -> "x"
    [] n = "fieldrest" -> "y = 1 ;"
    [] n \in {"int", "intlit", "rangemax", "range", "numeric", "value"} -> "1"
    [] n \in {"rpcend", "resnames"} -> ";"
    [] n = "reskind" -> "1 ;"
    [] n = "resname" -> "'s'"
    [] n = "optlist" -> "[ a = 1 ]"
    [] n = "optbody" -> "a = 1"
    [] n = "optrest" -> "]"
    [] n = "npart" -> "a"
    [] n = "nrest" -> "="
    [] n = "rpc" -> "rpc a ( a ) returns ( a ) ;"
    [] OTHER -> ""
RECURSIVE Compl(_, _, _)
Compl(st, i, acc) ==
  IF i > Len(st) THEN acc
  ELSE LET x == st[i] IN
       Compl(st, i + 1, acc \o
         (CASE x.y = "T" -> " " \o x.t [] x.y = "ID" -> " x"
            [] x.y = "N" -> IF Shortest(x.t) = "" THEN "" ELSE " " \o Shortest(x.t) [] OTHER -> ""))

Recover == " ; } x message Z { = } ) \"proto3\" enum E { A = 1 ; } $ service S { rpc ; } import 'q' ;"
Suffix(m) == RawBytes(IF m.mode = "run" THEN Compl(m.st, 1, "") ELSE Recover)

VARIABLES src, m
vars == <<src, m>>

Control == <<m.st, m.pre, m.mode, m.errs # <<>>, m.text, Has(m.open[1], "package")>>

Small == Len(m.st) <= MaxStack /\ m.depth <= MaxOpen

Emit(tok, s, k) ==
  LET full == IF Over(k) THEN s ELSE s \o Suffix(k)
      end == Finish(full, k)
      out == OutcomeOf(full, end)
  IN /\ Assert(OutcomeInv(full, end, out), <<"outcome invariant", full>>)
     /\ PrintT(ToJson([src |-> full, edge |-> StrOfBytes(tok), mode |-> k.mode, out |-> out]))

Init == src = <<>> /\ m = M0
Read(tok) ==
  /\ m.mode = "run" /\ m.errs = <<>>
  /\ src' = IF tok = Eof THEN src ELSE src \o <<32>> \o tok
  /\ m' = Feed(src', m)
  /\ Emit(tok, src', m')
Next == \E tok \in Alphabet : Read(tok)
Spec == Init /\ [][Next]_vars

Inv == MachineInv(src, m)
\* C01: the machine is never stuck: while it runs there is something to match
Live == m.mode = "run" => m.la = NoTok
===============================================================================
