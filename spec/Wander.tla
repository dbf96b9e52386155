--------------------------------- MODULE Wander ---------------------------------
(***************************************************************************)
(* Files written token by token.  A state is the text so far and the       *)
(* machine that read it; a step looks at what the machine is waiting for   *)
(* and appends one lexeme the grammar allows there - drawn from a pool of  *)
(* spellings - after some layout: blanks, newlines, comments.  In every    *)
(* third behaviour one step in NOISE per mille draws from all words, so    *)
(* that some texts fail and the machine has to recover.  Simulated: the    *)
(* last state of each behaviour, completed in the shortest way, is a test  *)
(* case.  Unlike Walk, which appends whole declarations, nothing here is   *)
(* fixed but the grammar.                                                  *)
(***************************************************************************)
EXTENDS Explore

MaxLen == atoi(IOEnv.LEN)
Noise == atoi(IOEnv.NOISE)

VARIABLES n, last,         \* tokens read, last byte of the last token
          salt             \* tells apart behaviours that draw the same random numbers
wvars == <<src, m, n, last, salt>>

\* a random number of 1..k
R(k) == ((RandomElement(0..1048575) + salt * (7919 + 31 * n)) % k) + 1

Wrd(str) == {RawBytes(w) : w \in str}
\* q with each ~ replaced by the bytes b
RECURSIVE Put(_, _, _)
Put(q, b, i) == IF i > Len(q) THEN <<>> ELSE (IF q[i] = 126 THEN b ELSE <<q[i]>>) \o Put(q, b, i + 1)
With(t, b) == Put(RawBytes(t), b, 1)
Uml == <<195, 169>>
Wide == <<240, 159, 152, 128>>

Ids == Wrd({"a", "b", "A", "B", "x", "_a", "_1", "a_b", "aB", "Cd", "x1_y", "_", "X_a", "message", "int32", "map", "group", "max", "to",
            "optional", "stream", "returns", "rpc", "syntax", "weak", "inf", "nan", "true", "e1", "E", "key", "value", "oneof", "reserved"})
PlainIds == Wrd({"a", "b", "A", "B", "x", "_a", "a_b", "X_a", "Cd", "_", "x1_y", "to", "max", "key"})
Uppers == Wrd({"A", "B", "Cd", "G", "X_a", "G_1x", "AB", "GG"})
OptNames == Wrd({"default", "json_name", "deprecated", "packed", "message_set_wire_format", "map_entry"})
Keys == Wrd({"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"})
Types == Wrd(Scalars) \cup Wrd({"a", "A", "B", "Cd", "x", "message", "to", "stream", "enum", "_"})
ValIds == Wrd({"a", "inf", "nan", "true", "false", "INF", "A", "e1", "_x", "max"})
Numbers == Wrd({"1", "2", "3", "17", "0x1F", "010", "536870911", "100", "0x1fffffff", "19000"})
RareNumbers == Wrd({"0", "536870912", "2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775808", "18446744073709551615"})
EnumNumbers == Wrd({"0", "1", "2", "2147483647", "0x7fffffff", "010", "5"})
Ints == Wrd({"0", "1", "7", "010", "0x1F", "0Xff", "007", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807",
             "9223372036854775808", "18446744073709551615", "01777777777777777777777", "0xFFFFFFFFFFFFFFFF", "00"})
BadInts == Wrd({"18446744073709551616", "09", "1x", "0x1g", "02000000000000000000000", "0x10000000000000000", "0_", "1f"})
Flts == Wrd({"1.5", ".5", "1.", "1e3", "1E-3", "1.e+2", "0.1", "1e22", "1e21", "1e16", "123456789.125", "1e400", "5e-324", "1e-310", "0.0", "0e0",
             "2.2250738585072014e-308", "0.30000000000000004", "3.4028235677973366e38", "1e-7", "100000.0", "00.5", "09.5", "1e-400", "4.9e-324"})
Strs == Wrd({"'s'", "\"\"", "''", "\"a\\0\"", "'\\''", "\"\\\"\"", "'\"'", "\"'\"", "\"\\\\\"", "'\\\\\\''", "\"\\xc3\"", "'\\xa9'", "\"\\u00e9\"", "'\\U0001F600'",
             "'\\377'", "\"\\n\\t\\r\\a\\b\\f\\v\\?\"", "'/* no */'", "\"//\"", "'a b  c'", "'\\000'", "'\\0' \"1\"", "\"\\xF\"", "'%s{}'", "'#'", "'\\\\n'", "\"a\\tb\"", "'\\1\\12\\123'"})
        \cup {With("'~'", Uml), With("\"~a\"", Wide), With("'~'", <<9>>), With("'a~'", <<127>>)}
BadStrs == Wrd({"'\\q'", "'\\400'", "'\\ud800'", "\"\\U00110000\"", "'\\x'", "'\\8'", "'\\u12'"}) \cup {With("'~'", <<0>>), With("'~x'", <<10>>)}
Paths == Wrd({"'a'", "\"a.proto\"", "'b/c'", "'a' '/b'", "'b'", "\"..a\"", "'a..'", "'.a/b.'", "'\\141'", "'d e'"}) \cup {With("'~/x'", Uml)}
BadPaths == Wrd({"''", "'/a'", "'a//b'", "'../a'", "'a/..'", "'./a'", "'a/.'", "'a/'", "'a\\\\b'", "'a/../b'", "'..'", "'.'", "'\\377'"})
IdStrs == Wrd({"'a'", "\"b\"", "'_x1'", "\"A_b\"", "'a' 'b'", "'\\x61'", "'message'"})
BadIdStrs == Wrd({"''", "'1a'", "'a b'", "'a.b'", "'a-'"}) \cup {With("'~'", Uml)}
Puncts == Wrd({".", ",", ";", ":", "/", "-", "+", "=", "(", ")", "[", "]", "<", ">"})

Blanks == {<<32>>, <<32, 32>>, <<9>>, <<13>>, <<12>>, <<11>>}
Newls == {<<10>>, <<13, 10>>, <<10, 32, 32>>, <<10, 10>>, <<10, 32, 10, 9>>, <<13, 10, 13, 10>>, <<10, 10, 10>>}
Comments == {With(t, <<10>>) : t \in {" // c~", "//~", " /* c */ ", "/**/", "~/* c~ * d~*/~", "~// x~// y~", " /* a */ /* b */~", "~~ // d~~", "/***/", " /* ~~~ ** e */",
                                      "~/* f */ // g~", "// h */ /* ~", "/* ~~ */", " // i~ /* j */~~", "/* k *~l */", "/*~*~*~*/"}}
            \cup {With("/* ~ */", Uml), With(" // ~~", Uml) \o <<10>>, With("/* a~ ", <<13, 10>>) \o Uml \o With("~*b*/", <<10>>), With("~// m", <<10>>) \o <<13, 10>>,
                  <<47, 47, 32, 13, 110, 13, 10>>, With("/*~", <<10, 12>>) \o RawBytes("* p*/"), With("/*", <<>>) \o <<10>> \o Wide \o RawBytes("*/"), With("// q ", <<>>) \o Wide \o <<10>>}
HashComments == {<<35, 10>>, RawBytes("# r") \o <<10>>}

Rnd(S) == RandomElement(S)
Chance(k) == R(1000) <= k
Mostly(S, Bad) == IF Chance(25) THEN Bad ELSE S

Proto3 == Has(m.open[1], "syntax") /\ StrVal(Kid(m.open[1], "syntax")) = Bytes("proto3")
Near(k) == m.open[Len(m.open) - k]         \* the innermost open nodes
Deep == Len(m.open) > 14

Scalar == LET q == Kids(Near(3), "type") IN
          IF q = <<>> \/ ~Has(q[1], "scalar") THEN "" ELSE Kid(q[1], "scalar").t
IsDefault == Len(m.open) > 4 /\ Near(1).k = "opt" /\ Near(2).k = "optlist" /\ Near(3).k = "field"
             /\ LET q == Kids(Near(1), "part") IN Len(q) = 1 /\ q[1].k = "npart" /\ Kid(q[1], "n").t = "default"
DefValue ==
  LET s == Scalar IN
  CASE s \in {"double", "float"} -> <<"$flt", "$flt", "$int", "$vid", "-">>
    [] s = "bool" -> <<"true", "false">>
    [] s \in {"string", "bytes"} -> <<"$str">>
    [] s = "" -> <<"$id">>
    [] OTHER -> <<"$int", "$int", "-">>

\* what may follow, with repetitions as weights
RECURSIVE Cands(_)
Cands(st) ==
  IF st = <<>> THEN <<"message">>
  ELSE
  LET x == st[1]
      after == Cands(Tail(st))
      lbl == IF Proto3 THEN <<"optional", "repeated", "$type", "$type", "$type">>
             ELSE <<"optional", "optional", "optional", "repeated", "repeated">>
      file == <<"message", "message", "message", "message", "enum", "enum", "extend", "extend", "service", "option", "import", ";">>
              \o (IF Has(m.open[1], "package") /\ ~Chance(20) THEN <<>> ELSE <<"package", "package">>)
      nest == IF Deep THEN <<>> ELSE <<"message", "group">>
  IN
  CASE x.y = "T" -> <<x.t>>
    [] x.y = "ID" -> IF x.r = "name" /\ Top(m).k = "field" /\ Has(Top(m), "group") THEN <<"$upper">> ELSE <<"$id">>
    [] x.y # "N" -> after
    [] x.t = "start" -> <<"syntax", "syntax", "syntax", "syntax">> \o file
    [] x.t = "file" -> file
    [] x.t = "synval" -> <<"$syn">>
    [] x.t = "string" -> IF Top(m).k = "import" THEN <<"$path">> ELSE <<"$str">>
    [] x.t = "strings" -> IF Chance(100) THEN <<IF Top(m).k = "import" THEN "$path" ELSE IF Top(m).k = "resname" THEN "$idstr" ELSE "$str">> ELSE after
    [] x.t = "fullident" -> <<"$id">>
    [] x.t = "fullrest" -> <<".", ".">> \o after \o after \o after
    [] x.t = "importkind" -> <<"weak", "public", "$path">>
    [] x.t = "msgbody" -> lbl \o lbl \o <<"map", "oneof", "oneof", "enum", "extend", "option", "reserved", "extensions", ";", "}", "}", "}">>
                          \o (IF Deep THEN <<"}", "}", "}">> ELSE <<"message", "message">>) \o (IF Chance(30) THEN <<"required", "$type">> ELSE <<>>)
    [] x.t \in {"field", "fieldkind"} -> <<"$type", "$type", "$type", "$type", ".">> \o (IF Proto3 \/ Deep THEN <<>> ELSE <<"group">>) \o (IF Chance(20) THEN <<"map">> ELSE <<>>)
    [] x.t \in {"fieldtype", "type"} -> IF Top(m).r = "key" /\ ~Chance(20) THEN <<"$key">> ELSE <<"$type", "$type", ".">>
    [] x.t = "typename" -> <<"$id", "$id", ".">>
    [] x.t = "int" ->
         (CASE Top(m).k = "field" -> <<"$num">>
            [] Top(m).k = "range" /\ Len(m.open) > 2 /\ Near(2).k # "enum" -> <<"$num">>
            [] OTHER -> <<"$enum", "$enum", "$enum", "-">>)
    [] x.t = "fieldrest" -> <<"$id">>
    [] x.t = "intlit" -> <<"$enum">>
    [] x.t \in {"opts", "groupopts"} -> <<"[">> \o after \o after
    [] x.t = "extbody" -> lbl \o <<"}", "}", ";">>
    [] x.t = "oneofbody" -> <<"$type", "$type", "$type", ".", "option", ";">> \o (IF Has(Top(m), "field") \/ Chance(30) THEN <<"}", "}", "}">> ELSE <<>>) \o (IF Proto3 \/ Deep THEN <<>> ELSE <<"group">>)
    [] x.t = "enumbody" -> <<"$id", "$id", "$id", "option", "reserved", ";", "}", "}">>
    [] x.t = "svcbody" -> <<"rpc", "rpc", "rpc", "option", ";", "}">>
    [] x.t = "stream" -> <<"stream", "$id", "$id", ".">>
    [] x.t = "rpcend" -> <<";", "{">>
    [] x.t = "rpcbody" -> <<"option", "option", "}", "}", ";">>
    [] x.t = "reskind" -> <<"$idstr">> \o (IF Len(m.open) > 1 /\ Near(1).k = "enum" THEN <<"$enum", "$enum", "-">> ELSE <<"$num", "$num">>)
    [] x.t = "resname" -> <<"$idstr">>
    [] x.t = "resnames" -> <<",", ";">>
    [] x.t = "ranges" -> <<",", ",">> \o after \o after
    [] x.t = "range" -> IF Len(m.open) > 1 /\ Near(1).k = "enum" THEN <<"$enum", "$enum", "-">> ELSE <<"$num">>
    [] x.t = "rangeend" -> <<"to">> \o after
    [] x.t = "rangemax" -> <<"max">> \o (IF Len(m.open) > 2 /\ Near(2).k = "enum" THEN <<"$enum", "$enum", "-">> ELSE <<"$num", "$num">>)
    [] x.t = "optrest" -> <<",", "]", "]">>
    [] x.t \in {"optbody", "npart"} -> <<"$id", "$id", "(", "$opt">>
    [] x.t = "nrest" -> <<".", "=", "=">>
    [] x.t = "value" -> IF IsDefault /\ ~Chance(60) THEN DefValue ELSE <<"-", "$vid", "$vid", "$int", "$int", "$flt", "$str", "$str", "{", "{">>
    [] x.t = "numeric" -> IF IsDefault THEN SelectSeq(DefValue, LAMBDA c : c # "-") ELSE <<"$int", "$int", "$flt">>
    [] x.t = "agg" -> <<"$id", "$id", ":", ":", "$int", "$flt", "$str", "$str", "$bad1", "$p", "{", "}", "}">>
    [] OTHER -> after

Lexeme(c) ==
  CASE c = "$id" -> Rnd(IF Chance(600) THEN PlainIds ELSE Ids)
    [] c = "$upper" -> Rnd(Mostly(Uppers, Ids))
    [] c = "$opt" -> Rnd(OptNames)
    [] c = "$key" -> Rnd(Keys)
    [] c = "$type" -> Rnd(Types)
    [] c = "$vid" -> Rnd(ValIds)
    [] c = "$num" -> Rnd(Mostly(Numbers, RareNumbers))
    [] c = "$enum" -> Rnd(Mostly(EnumNumbers, Ints))
    [] c = "$int" -> Rnd(Mostly(Ints, BadInts))
    [] c = "$flt" -> Rnd(Flts)
    [] c = "$str" -> Rnd(Mostly(Strs, BadStrs))
    [] c = "$path" -> Rnd(Mostly(Paths, BadPaths))
    [] c = "$idstr" -> Rnd(Mostly(IdStrs, BadIdStrs))
    [] c = "$syn" -> Rnd(Mostly(Wrd({"'proto3'", "\"proto2\"", "'proto' \"3\"", "'proto2'"}), Wrd({"'proto4'", "''"})))
    [] c = "$bad1" -> Rnd(Wrd({"1f", "2.5F", "1.f", "0f", "-", "+"}))
    [] c = "$p" -> Rnd(Puncts)
    [] OTHER -> RawBytes(c)

Wordy(b) == IsIdPart(b) \/ b \in {46, 34, 39, 43, 45}       \* tokens of these bytes keep a blank between them
Gap(tok) ==
  LET k == R(20) IN
  CASE k <= 5 /\ ~(Wordy(last) /\ Wordy(tok[1])) /\ ~(last = 47 /\ tok[1] = 47) -> <<>>
    [] k <= 13 -> <<32>>
    [] k = 14 -> Rnd(Blanks)
    [] k <= 16 -> Rnd(Newls)
    [] k = 17 /\ m.text -> <<32>> \o Rnd(HashComments)
    [] OTHER -> (IF last = 47 THEN <<32>> ELSE <<>>) \o Rnd(Comments)

Token ==
  IF salt % 3 = 0 /\ R(1000) <= Noise THEN RandomElement(Alphabet \ {Eof})
  ELSE IF m.mode = "skip" THEN Lexeme(LET q == <<"message", "enum", "option", "$id", "}", ";", "$str", "/">> IN q[R(Len(q))])
  ELSE LET q == Cands(m.st) IN Lexeme(q[R(Len(q))])

RECURSIVE ReadAll(_, _)
ReadAll(s, k) ==
  IF Over(k) THEN k
  ELSE LET t == Trivia(s, k.pos, k.text, IF k.laste = 0 /\ k.pos = 0 THEN "rest" ELSE "first", <<>>, k.com, k.errs)
       IN IF t.la.k = "eof" THEN k ELSE ReadAll(s, Feed(s, k))

WInit == src = <<>> /\ m = M0 /\ n = 0 /\ last = 10 /\ salt \in 1..5000
Step == /\ n < MaxLen /\ ~Over(m)
        /\ \E tok \in {Token} : \E gap \in {Gap(tok)} :
             /\ src' = src \o gap \o tok
             /\ m' = ReadAll(src', m)
             /\ last' = tok[Len(tok)]
             /\ n' = n + 1 /\ UNCHANGED salt
WSpec == WInit /\ [][Step]_wvars

\* what completes the file; the last layout may hold a comment
Tails == {<<>>, <<10>>, <<32, 47, 47, 32, 122>>, <<32, 47, 47, 32, 122, 10>>, <<10, 47, 42, 122, 42, 47>>, <<47, 42, 42, 47, 13, 10>>}
EmitEnd ==
  \A k \in {R(8)} : \A tl \in {RandomElement(Tails)} :
    LET full == (IF Over(m) \/ k = 1 THEN src ELSE src \o Suffix(m)) \o tl   \* one in eight ends where it stands
        end == Finish(full, M0)                \* read anew: an unclosed string read on the way may have got an end
        out == OutcomeOf(full, end)
    IN /\ Assert(OutcomeInv(full, end, out), <<"outcome invariant", full>>)
       /\ PrintT(ToJson([src |-> full, out |-> out]))
Emitted == IF n < MaxLen /\ ~Over(m) THEN TRUE ELSE EmitEnd
===================================================================================
