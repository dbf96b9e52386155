------------------------------- MODULE Families -------------------------------
(***************************************************************************)
(* Families of source texts, one or more per property.  Big says whether   *)
(* the larger bounds of the thorough tier are used.                        *)
(***************************************************************************)
EXTENDS Texts

Glued(q) == Join(q, <<32>>, 0, <<>>, 1)
Digits3(i) == <<48 + ((i \div 100) % 10), 48 + ((i \div 10) % 10), 48 + (i % 10)>>
Let3(i) == <<97 + ((i \div 26) % 26), 97 + (i % 26)>>
\* piece(1) .. piece(n), where @ is the number, ` a name that differs
Many(t, n) == FlattenSeq([i \in 1..n |-> Fill(t, Digits3(1000 + i), Let3(i) \o <<95>> \o Digits3(i))])

(* ---------------- C02: names that are keywords, in every position -------- *)
KeyWords == ScalarsQ \cup {"syntax", "package", "import", "public", "weak", "option", "message", "enum",
  "service", "extend", "oneof", "reserved", "extensions", "to", "max", "rpc", "returns", "stream",
  "optional", "required", "repeated", "group", "map", "inf", "nan", "true", "false", "default",
  "json_name", "a", "Z", "_", "__a", "a1_B", "proto3", "edition", "import_", "onEof", "export", "local"}
NameHoles == {
  "package @;", "package a.@;", "package @.b.c;", "message @ {}", "enum @ { A = 0; }", "enum E { @ = 0; }",
  "enum E { option allow_alias = true; @ = 0; reserved 'x'; }",
  "service @ {}", "service S { rpc @ (A) returns (B); }", "service S { rpc M (@) returns (B); }",
  "service S { rpc M (A) returns (@); }", "service S { rpc M (stream @) returns (stream @); }",
  "service S { rpc M (.@) returns (.a.@) {} }", "message M { oneof @ { int32 a = 1; } }",
  "message M { optional int32 @ = 1; }", "message M { required @ a = 1; }", "message M { repeated .@ a = 1; }",
  "message M { optional @.b a = 1; }", "message M { optional a.@ a = 1; }",
  "message M { oneof o { @ a = 1; } }", "message M { oneof o { @.b a = 1; } }", "message M { oneof o { int32 @ = 1; } }",
  "syntax = 'proto3'; message M { @ a = 1; }", "syntax = 'proto3'; message M { @.b a = 1; }",
  "syntax = 'proto3'; message M { int32 @ = 1; }", "syntax = 'proto3'; message M { .@ @ = 1; }",
  "syntax = 'proto3'; message M { optional @ a = 1; }", "syntax = 'proto3'; message M { repeated @ @ = 1; }",
  "message M { map<int32, @> a = 1; }", "message M { map<@, int32> a = 1; }", "message M { map<string, a.@> @ = 1; }",
  "message M { map<string, .@.b> @ = 1; }",
  "message M { optional group @ = 1 {} }", "message M { repeated group X@ = 1 { } }",
  "extend @ { optional int32 a = 1; }", "extend .@ { optional int32 a = 1; }", "extend a.@ { optional @ a = 1; }",
  "extend A { @ a = 1; }", "extend A { optional int32 @ = 1; }", "syntax = 'proto3'; extend A { @ a = 1; }",
  "option @ = 1;", "option (@) = 1;", "option (.@) = 1;", "option (a.@) = 1;", "option a.@ = 1;", "option (a).@ = 1;",
  "option a.(@) = 1;", "option a = @;", "option a = -@;", "option a = { @: 1 };", "option a = { @ { @: @ } };",
  "option a = { [@]: 1 };", "message M { optional int32 a = 1 [@ = 1]; }", "message M { optional X a = 1 [default = @]; }",
  "message M { optional bool a = 1 [default = @]; }", "message M { optional double a = 1 [default = @]; }",
  "message M { reserved '@'; }", "message M { reserved \"@\", '@'; }", "enum E { A = 0; reserved '@'; }",
  "message M { reserved 1 to @; }", "message M { extensions 1 to @; }", "enum E { A = 0; reserved 1 to @; }",
  "import @ 'a';", "@ 'a';", "@;", "@ M {}", "message M { @ N {} }", "service S { @ M (A) returns (B); }",
  "service S { rpc M (A) @ (B); }", "service S { rpc M (@ A) returns (@ B); }", "service S { rpc @ (stream @) returns (stream @); rpc @ (stream A) returns (stream @.B) {} }", "enum E { @ 1; }", "syntax = '@';",
  "@ = 'proto3'; message M {}", "message M { @ a = 1; }", "message M { @ int32 a = 1; }", "enum E { @ a = 1; }",
  "message M { @ a { int32 b = 1; } }", "message M { oneof o { @ int32 a = 1; } }"}
FamNames(Big) == {FS(t, k) : t \in NameHoles, k \in KeyWords}

(* ---------------- C04: integer and float literals ------------------------ *)
IntTexts == {"0", "1", "7", "8", "9", "10", "00", "01", "07", "08", "09", "010", "0777", "0778", "0987", "0x", "0X", "0x0",
  "0x1", "0XfF", "0xg", "0x1g", "0xABCDEF", "0xabcdef0", "1a", "1_0", "0_1", "0b1", "0o7", "1x1", "123abc",
  "2147483646", "2147483647", "2147483648", "2147483649", "017777777777", "020000000000", "0x7fffffff", "0x80000000",
  "4294967294", "4294967295", "4294967296", "4294967297", "037777777777", "040000000000", "0xffffffff", "0x100000000",
  "536870910", "536870911", "536870912", "0x1fffffff", "0x20000000",
  "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809",
  "0x7fffffffffffffff", "0x8000000000000000", "0777777777777777777777", "01000000000000000000000",
  "18446744073709551614", "18446744073709551615", "18446744073709551616", "18446744073709551617",
  "0xffffffffffffffff", "0x10000000000000000", "0xffffffffffffffffg", "01777777777777777777777", "02000000000000000000000",
  "02000000000000000000008", "0177777777777777777777777777", "08000000000000000000000000",
  "340282366920938463463374607431768211455", "340282366920938463463374607431768211457", "18446744078004518913",
  "000000000000000000000000000000000001", "0x000000000000000000000000000000000f",
  "1 2", "1-2", "1+2", "+1", "--1"}
FloatTexts == {"1.0", "1.", ".5", "0.5", "00.5", "08.5", "1e5", "1E5", "1e+5", "1e-5", "1e", "1e+", "1.e3", "1.5e3", "1.5e", "0e0",
  "09e1", "1f", "1F", "0f", "0F", "01f", "1.5f", "1e5f", ".5f", "1.2.3", "1..2", ".5.5", "1e5e5", "0x1.5", "0x1e5", "0x1e+5",
  "1e400", "1e-400", "4.9e-324", "1.7976931348623157e308", "1.7976931348623159e308", "123456789012345678901234567890.0",
  "0.1", "100.0", "1e15", "1e16", "1e21", "1e22", "3.4028235e38", "1.17549435e-38", "0.000001", "0.0000001", "-.5", "inf", "nan",
  "Inf", "infinity", "INF", "NaN"}
NumHoles == {
  "message M { optional int32 a = @; }", "message M { optional group B = @ {} }", "message M { map<int32, int32> m = @; }",
  "message M { oneof o { int32 a = @; } }", "extend M { optional int32 a = @; }", "message M { reserved @; }",
  "message M { reserved 1 to @; }", "message M { reserved @ to 5; }", "message M { reserved 1, @, 7; }",
  "message M { extensions @; }", "message M { extensions @ to max; }", "message M { extensions 5 to @ [a = 1]; }",
  "enum E { A = @; }", "enum E { A = 0; reserved @; }", "enum E { A = 0; reserved 0 to @; }",
  "enum E { A = 0; reserved @ to max; }",
  "option a = @;", "option a = { x: @ y: [@] };", "message M { optional int32 a = 1 [x = @, y = @]; }",
  "message M { optional int32 a = 1 [json_name = @]; }", "message M { optional E a = 1 [default = @]; }"}
DefaultHoles == {"message M { optional " \o t \o " a = 1 [default = @]; }" : t \in ScalarsQ}
LongHoles == {"option a = @;", "enum E { A = @; }", "message M { optional uint64 a = @ [default = @]; }"}
FamInts(Big) ==
  {FS(t, s \o i) : t \in NumHoles \cup DefaultHoles, i \in IntTexts, s \in {"", "-"}}
  \cup {F1(t, Bytes(h) \o [i \in 1..n |-> d] \o Bytes(e)) : t \in LongHoles, h \in {"0x", "0XF", "0", "1", "0x1", "-0x", "7"}, d \in {48, 55},
                    n \in {13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 32, 40, 41, 64, 129, 300}, e \in {"1", ""}}
  \cup {FS(t, i) : t \in NumHoles, i \in {"- 1", "-/**/1", "-~1", "- ", "-x", "- 2147483648", "-//~ 9"}}
FamFloats(Big) ==
  {FS(t, s \o i) : t \in NumHoles \cup DefaultHoles, i \in FloatTexts, s \in {"", "-"}}

(* every literal over a small alphabet, up to a length *)
FamNumChars(Big) ==
  {F1(t, <<h>> \o q) : t \in {"option a = @ ;", "message M { optional uint64 a = 1 [default = @ ]; }"},
                h \in {48, 57}, q \in SeqUpTo({48, 55, 57, 46, 101, 120, 102, 43}, IF Big THEN 5 ELSE 3)}

(* ---------------- C05: string literals ----------------------------------- *)
StrHoles == {"option a = @;", "message M { optional string s = 1 [default = @]; }",
  "message M { optional bytes s = 1 [default = @]; }", "message M { optional int32 s = 1 [json_name = @]; }",
  "import @;", "syntax = @;", "message M { reserved @; }", "enum E { A = 0; reserved @, 'z'; }",
  "option a = { x: @ };", "message M { optional X s = 1 [default = @]; }", "message M { optional int32 s = 1 [default = @]; }"}
Q1(b) == <<39>> \o b \o <<39>>
Q2(b) == <<34>> \o b \o <<34>>
Quoted(S) == {Q1(b) : b \in S} \cup {Q2(b) : b \in S}
OneByte == {<<b>> : b \in 0..127}
OneEsc == {<<92, b>> : b \in 0..127}
Raw8 == {<<194, 128>>, <<223, 191>>, <<224, 160, 128>>, <<226, 130, 172>>, <<237, 159, 191>>, <<238, 128, 128>>,
         <<239, 191, 189>>, <<239, 191, 191>>, <<240, 144, 128, 128>>, <<244, 143, 191, 191>>, <<92, 195, 169>>}
HexEsc == {<<92, x>> \o q : x \in {120, 88}, q \in SeqUpTo({48, 55, 70, 102, 103}, 3)}
OctEsc == {<<92>> \o q : q \in SeqUpTo({48, 51, 52, 55, 56}, 4)}
Oct3 == {<<92, a, b, c>> : a \in 48..55, b \in 48..56, c \in 48..56}
UniEsc == {<<92, 117>> \o q : q \in SeqUpTo({48, 68, 100, 56, 70, 103}, 3) \cup SeqN({48, 68, 56, 70}, 4)}
          \cup {<<92, 117>> \o Bytes(q) : q \in {"0000", "0001", "007f", "0080", "07FF", "07ff0", "0800", "d7ff", "D800", "dbFF", "DC00",
                                                 "dfff", "e000", "fffd", "ffff", "00e9", "12345", "012", "01g4", "20Ac"}}
UpperUni == {<<92, 85>> \o Bytes(q) : q \in {"00000000", "00000041", "0000007f", "00000080", "000007ff", "00000800", "0000d7ff", "0000d800",
             "0000dfff", "0000e000", "0000ffff", "00010000", "0001F600", "0010ffff", "00110000", "001fffff", "00200000", "01000000",
             "10000041", "7fffffff", "80000041", "ffffffff", "FFFF0041", "100000041", "0001f60", "0001f6", "", "0001f60g", "0000004g", "000100000"}}
Marks == {<<97>>, <<92>>, <<39>>, <<34>>, <<92, 110>>, <<92, 49>>, <<92, 120, 50>>, <<32>>, <<48>>, <<10>>, <<195, 169>>, <<0>>}
StrBodies(Big) == OneByte \cup OneEsc \cup Raw8 \cup HexEsc \cup OctEsc \cup UniEsc \cup UpperUni
FamStrings(Big) ==
  {F1(t, l) : t \in {"option a = @;", "message M { optional bytes s = 1 [default = @]; }"}, l \in Quoted(StrBodies(Big))}
  \cup {F1(t, Q1(b)) : t \in StrHoles, b \in Raw8 \cup OneEsc \cup UpperUni}
  \cup {F1("option a = @;", Q2(b)) : b \in Oct3}
  \cup {F1("option a = @;", Q1(<<120>> \o b \o <<121>>)) : b \in StrBodies(Big)}
  \cup {F1("option a = @;", Q1(b) \o <<32>> \o Q2(c)) : b \in OneByte \cup OneEsc \cup Raw8, c \in {<<>>, <<55>>, <<120>>}}
  \cup {F1("option a = @;", Q2(c) \o Q1(b)) : b \in OneByte \cup OneEsc \cup Raw8, c \in {<<>>, <<92, 55>>}}
FamStrMarks(Big) ==
  {F1(t, <<39>> \o b \o <<39>>) : t \in {"option a = @;", "message M { optional string s = 1 [default = @]; } message N {}"},
                                 b \in Cats(Marks, IF Big THEN 4 ELSE 3)}
LeadBytes == {127, 128, 191, 192, 193, 194, 223, 224, 225, 236, 237, 238, 239, 240, 241, 243, 244, 245, 255}
ContBytes == {65, 127, 128, 143, 144, 159, 160, 191, 192}
HexText(b) == <<92, 120, HexDigit(b \div 16), HexDigit(b % 16)>>
HexTexts(q) == FlattenSeq([i \in 1..Len(q) |-> HexText(q[i])])
FamUtf8(Big) ==
  {F1(t, Q1(HexTexts(<<l>> \o q))) :
     t \in IF Big THEN StrHoles ELSE {"message M { optional string s = 1 [default = @]; }"},
     l \in LeadBytes, q \in SeqUpTo(ContBytes, IF Big THEN 2 ELSE 2)}
  \cup {F1("message M { optional string s = 1 [default = @]; optional int32 t = 2 [json_name = @]; reserved @; }",
           Q1(HexTexts(<<l>> \o q))) : l \in {224, 237, 240, 241, 244}, q \in SeqN({127, 128, 144, 191}, 3)}
Pieces == {"'a'", "\"b\"", "''", "\"\"", "'\\''", "\"'\"", "'\"'", "'\\x4'", "'1'", "'\\1'", "'c"}
FamAdjacent(Big) ==
  {F1(t, Bytes(p) \o Bytes(s) \o Bytes(q) \o Bytes(r)) :
     t \in StrHoles, p \in Pieces, q \in Pieces, r \in {"", " 'z'"}, s \in {"", " ", "~", "/* */", "//~"}}

\* literals of several pieces, far apart
FarPieces == {"'a'", "'\\n'", "' '", "\"\\xff\"", "'\\xc3'", "'\\xa9'", "'\\0'", "''", "'\\U0001F600'", "\"b'\""}
FamPieces(Big) ==
  {F1(t, Join(q, Bytes(w), 0, <<>>, 1)) : q \in SeqN(All(FarPieces), 2) \cup (IF Big THEN SeqN(All(FarPieces), 3) ELSE {}), w \in {" ", "   ", "~", "  /* c */~  "},
     t \in {"import @;", "message M { optional string s = 1 [default = @]; }", "message M { optional int32 s = 1 [json_name = @ ]; }", "message M { reserved @, 'z', @; }", "option a = @; option b = { c: @ };",
            "message M { optional bytes s = 1 [ default = @ ]; }"}}

(* ---------------- C06: labels and kinds ----------------------------------- *)
FieldScopes == {"message M { @ }", "message M { oneof o { @ } }", "message M { oneof o { @ int32 z = 9; } }", "extend M { @ }",
  "message M { extend N { @ } }", "message M { repeated group G = 8 { @ } }", "message M { message N { @ } }",
  "message M { oneof o { repeated group G = 8 { @ } } }", "message M { oneof o { } @ }", "extend M { repeated group G = 8 { extend P { @ } } }",
  "message M { oneof o { option a = 1; } oneof p { ; } @ }"}
Kinds == {"int32 f = 1;", "bytes f = 1;", "X f = 1;", ".a.X f = 1;", "group F = 1 {}", "group f = 1 {}", "group F = 1 { X q = 1; optional X r = 2; }"}
         \cup {"map<" \o k \o ", string> f = 1;" : k \in ScalarsQ \cup {"X", ".X", "a.X"}}
         \cup {"map<int32, " \o k \o "> f = 1;" : k \in ScalarsQ \cup {"X", ".X"}}
LabelTexts == {"", "optional ", "required ", "repeated "}
FamLabels(Big) == {Bytes(sx) \o FS(t, l \o k) : sx \in Syntaxes, t \in FieldScopes, l \in LabelTexts, k \in Kinds}
                  \* and further in
                  \cup {Bytes(sx) \o Bytes(w[1]) \o FS(t, l \o k) \o Bytes(w[2]) : sx \in Syntaxes, t \in FieldScopes, l \in LabelTexts,
                       k \in {"int32 f = 1;", ".X f = 1;", "group F = 1 {}", "map<int32, X> f = 1;"},
                       w \in {<<"message A { message B { ", "} }">>, <<"message A { message B { message C { ", "} } }">>, <<"message A { repeated group G = 1 { message C { ", "} } }">>}}

(* ---------------- C07: numbers and ranges --------------------------------- *)
BoundNums == {"-2147483649", "-2147483648", "-2147483647", "-1", "-0", "0", "1", "2", "18999", "19000", "19999", "536870910", "536870911",
  "536870912", "2147483646", "2147483647", "2147483648", "4294967295", "4294967297", "18446744073709551615", "-536870911"}
RangeHoles == {"message M { reserved @ to `; }", "message M { extensions @ to `; }", "enum E { A = 0; reserved @ to `; }",
  "message M { reserved 3, @ to `, 5 to 6; }", "enum E { A = 0; reserved 3, @ to `, 5 to 6; }",
  "message M { extensions 3, @ to `, 5 to 6 [x = 1]; }",
  "message M { option message_set_wire_format = true; extensions @ to `; reserved @ to `; }"}
SetOpts == {"", "option no_standard_descriptor_accessor = true;", "option deprecated = true;", "option map_entry = true;", "option message_set_wire_format = true;", "option message_set_wire_format = false;",
  "option message_set_wire_format = 'true';", "option message_set_wire_format = 1;", "option (message_set_wire_format) = true;",
  "option message_set_wire_format.x = true;", "option x.message_set_wire_format = true;", "option message_set_wire_format = -true;",
  "option message_set_wire_format = True;", "option message_set_wire_format = { true };",
  "option message_set_wire_format = false; option message_set_wire_format = true;",
  "option message_set_wire_format = true; option message_set_wire_format = false;",
  "option a = 1; option message_set_wire_format = true;", "message N { option message_set_wire_format = true; }"}
SetHoles == {"message M { @ extensions 4 to max; reserved 4 to max; }", "message M { extensions 4 to max, 1, 536870911 to max; @ }",
  "message M { @ message Q { extensions 1 to max; } }", "message M { extensions 1 to max; optional group Q = 1 { @ extensions 2 to max; } }",
  "message M { @ extensions 4 to 2147483647; }", "message M { @ optional int32 a = 536870912; }", "message M { @ reserved 4 to 536870912; }",
  "message M { @ extend Z { optional group Q = 1 { extensions 1 to max; } } extensions max; }"}
FamRanges(Big) ==
  {F2(t, a, b) : t \in RangeHoles, a \in BoundNums, b \in BoundNums \cup {"max"}}
  \cup {FS(t, a) : t \in NumHoles, a \in BoundNums \cup {"max", "- 5", "5 to", "max to 5", "to"}}
  \cup {FS(t, o) : t \in SetHoles, o \in SetOpts}
FamRangeLists(Big) ==
  {F1(t, FlattenSeq([i \in 1..Len(q) |-> IF i = 1 THEN q[i] ELSE <<44>> \o q[i]])) :
     t \in {"message M { reserved @; }", "message M { extensions @; }", "message M { extensions @ [x = 1]; }", "enum E { A = 0; reserved @; }"},
     q \in SeqUpTo(All({"1", "2 to 3", "4 to max", "-1", "'a'", "0", "-1 to max", "-5 to -3"}), IF Big THEN 4 ELSE 3) \ {<<>>}}

(* ---------------- C08: synthesised names ---------------------------------- *)
NameChars == {97, 65, 95, 49, 122}
FieldNames(n) == {q \in SeqUpTo(NameChars, n) : q # <<>> /\ q[1] # 49}
FamSynNames(Big) ==
  {F1(t, n) : t \in {"message M { map<int32, string> @ = 1; }", "syntax = 'proto3'; message M { optional int32 @ = 1; }",
                     "message M { optional group @ = 1 { } }",
                     "syntax = 'proto3'; message M { optional int32 @ = 1; oneof _a { int32 X_a = 2; } optional X _A = 3; }"},
              n \in FieldNames(IF Big THEN 5 ELSE 3)}
  \cup {F1(t, Bytes(n)) : t \in {"message M { map<int32, string> @ = 1; }", "syntax = 'proto3'; message M { optional int32 @ = 1; }"},
        n \in {"foo_bar", "fooBar", "FooBar", "foo__bar", "_foo_bar_", "foo1_2bar", "FOO_BAR", "f_O_o", "foo_1", "foo_", "x123_Y4", "map", "optional"}}
ClashNames == {"a", "_a", "X_a", "XX_a", "Xa", "__a", "X__a"}
FamClashes(Big) ==
  {Fill("syntax = 'proto3'; message M { @ int32 ` = 1; ", Bytes(l1), Bytes(n1)) \o Fill("@ int32 ` = 2; ", Bytes(l2), Bytes(n2))
     \o Bytes(x) \o Bytes(" }") :
     n1 \in ClashNames, n2 \in ClashNames, l1 \in {"optional", ""}, l2 \in {"optional", "repeated"},
     x \in {"", "oneof _a { int32 z = 3; }", "oneof X_a { int32 _a = 3; }", "int32 _a = 3;", "optional string _a = 3; optional bytes X_a = 4;"}}

(* ---------------- C09: defaults and JSON names ---------------------------- *)
DefVals == {"1", "-1", "0", "-0", "true", "false", "-true", "True", "x", "-x", "1.5", "-1.5", "1.0", "100.0", "1e3", "inf", "-inf", "nan", "-nan", "'a'",
  "\"b\"", "'a' 'b'", "'\\xff'", "'\\n\\001\\''", "''", "{}", "{ a: 1 }", "2147483648", "-2147483649", "4294967296", "9223372036854775808",
  "-9223372036854775809", "18446744073709551615", "0x10", "010", "1e400", "-1e-400", "0.1", "1e39", "-3.5e38", "3.4028235e38", "1e-46", "16777217", "16777217.0", "0.30000001192092896", "9007199254740993", "'caf\\xc3\\xa9'"}
DefFields == {l \o t : l \in {"optional ", "required ", "repeated ", ""}, t \in {"int32", "uint32", "sint64", "fixed64", "double", "float", "bool", "string", "bytes", "X", ".a.X"}}
FamDefaults(Big) ==
  {Bytes(sx) \o F2("message M { @ a = 1 [default = `]; }", f, v) : sx \in {"", "syntax = 'proto3'; "}, f \in DefFields, v \in DefVals}
  \cup {FS(t, v) : t \in DefaultHoles, v \in DefVals}
OptItem == {"default = 7", "default = 'q'", "json_name = 'j'", "json_name = 'k' \"l\"", "json_name = 1", "json_name = j", "json_name = '\\xff'", "x = 1", "(default) = 1", "default.x = 1", "x.default = 1",
  "(json_name) = 2", "json_name.x = 2", "(json_name).default = 3", "Default = 1", "default = -x"}
OptFields == {"optional int32 a = 1 [@];", "optional string a = 1 [@];", "repeated int32 a = 1 [@];", "map<int32, int32> a = 1 [@];",
  "optional group A = 1 [@] {}", "repeated group A = 1 [@] {}", "oneof o { int32 a = 1 [@]; }", "optional E a = 1 [@];", "extend Q { optional int32 a = 1 [@]; }",
  "oneof o { group A = 1 [@] {} }", "required int32 a = 1 [@]; optional int32 b = 2;"}
Commas(q) == FlattenSeq([i \in 1..Len(q) |-> IF i = 1 THEN q[i] ELSE <<44, 32>> \o q[i]])
FamOptLists(Big) ==
  {Bytes(sx) \o F1("message M { " \o t \o " }", Commas(q)) :
     sx \in {"", "syntax = 'proto3'; "}, t \in OptFields, q \in SeqUpTo(All(OptItem), 2) \ {<<>>}}
  \cup {F1("message M { " \o t \o " }", Commas(q)) :
     t \in IF Big THEN OptFields ELSE {"optional int32 a = 1 [@];"}, q \in SeqN(All(OptItem), 3)}
\* the same names where they mean nothing special
FamNotDefault(Big) ==
  {F2(t, n, v) : n \in {"default", "json_name", "message_set_wire_format", "map_entry", "packed", "deprecated"}, v \in DefVals,
     t \in {"option @ = `;", "message M { option @ = `; }", "enum E { option @ = `; A = 0 [@ = `]; }", "service S { option @ = `; rpc R (A) returns (B) { option @ = `; } }",
            "message M { oneof o { option @ = `; int32 a = 1; } extensions 2 [@ = `]; }", "message M { message @ {} optional int32 @ = 1 [x = `]; }"}}

\* the text a default is stored as: every run of bytes that are written specially
DefPieces == All({"\\\\", "\\'", "\\\"", "\"", "\\n", "\\r", "\\t", "\\0", "\\x01", "\\x7f", "\\xff", "\\?", "a", "1", " "}) \cup {<<195, 169>>}
FamDefStrings(Big) ==
  {F1("message M { optional bytes s = 1 [default = @]; }", Q1(q)) : q \in Cats(DefPieces, 3)}
  \cup {F1("message M { optional string s = 1 [default = @]; }", Q1(q)) : q \in Cats(DefPieces, IF Big THEN 3 ELSE 2)}
  \cup (IF Big THEN {F1("message M { optional bytes s = 1 [default = @]; }", Q2(Bytes("b") \o q)) : q \in Cats(DefPieces \ All({"\""}), 3)} ELSE {})
\* over the whole range of doubles and floats
Mantissas == {"1", "9.999999999999999", "1.7976931348623157", "4.9", "2.2250738585072014", "1.1754944", "3.4028235", "7.006492321624085", "123456789012345678", "0.3"}
Exponents == {-400, -342, -330, -60, -46, -45, -44, -39, -38, -37, -17, -7, -6, -5, -4, -1, 0, 1, 5, 15, 16, 17, 20, 21, 22, 37, 38, 39, 60, 291, 292, 300, 400} \cup (-326..-320) \cup (-310..-305) \cup (305..310)
ExpText(e) == IF e < 0 THEN "-" \o ToString(0 - e) ELSE ToString(e)
FamDefFloats(Big) ==
  {FS(t, g \o a \o "e" \o ExpText(e)) : a \in Mantissas, e \in Exponents,
     t \in {"message M { optional double a = 1 [default = @]; }", "message M { optional float a = 1 [default = @]; }"} \cup (IF Big THEN {"option a = @;"} ELSE {}),
     g \in IF Big THEN {"", "-"} ELSE {""}}

(* ---------------- C10: options -------------------------------------------- *)
OptNames == {"a", "a.b", "a.b.c", "(a)", "(.a)", "(a.b.c)", "(.a.b).c", "(a).(b)", "a.(b.c).d", "(a).b.c", "default", "json_name"}
OptVals == {"x", "1", "-1", "0x1F", "010", "1.5", "-1.5", "2.0", "inf", "-inf", "-x", "'a'", "'a' \"b\"", "'\\xff\\0'", "{}", "{ a: 1 }", "{ a: 'b\\n' c { d: [1, 2.0, -3] } }", "{ # c~ a: 1f, /* d */ b: .5 <e: -1> ; }",
  "{ [a.b/c]: {} }", "18446744073709551615", "-9223372036854775808", "-9223372036854775809", "true", "{ a: 0x1F b: 010 c: 1e3 d: 'x' 'y' \"z\" }", "{ a: \"\\xe9'\\\"\" }"}
OptPlaces == {"option @;", "message M { option @; }", "message M { oneof o { option @; int32 a = 1; } }", "message M { optional int32 a = 1 [@]; }",
  "message M { oneof o { int32 a = 1 [@]; } }", "message M { map<int32, string> a = 1 [@]; }", "message M { repeated group A = 1 [@] {} }",
  "message M { repeated group A = 1 { option @; } }", "extend M { optional int32 a = 1 [@]; }", "message M { extensions 1 [@]; }",
  "message M { extensions 1 to 2, 4, 6 to max [@]; }", "enum E { option @; A = 0; }", "enum E { A = 0 [@]; B = 1; }", "service S { option @; }",
  "service S { rpc R (A) returns (B) { option @; } rpc Q (A) returns (B); }", "syntax = 'proto3'; message M { optional int32 a = 1 [@]; }",
  "message M { message N { option @; } enum E { option @; A = 0; } }"}
FamOptions(Big) ==
  {FS(t, n \o " = " \o v) : t \in OptPlaces, n \in OptNames, v \in OptVals}
OptMulti == {"option a = 1;", "option (b).c = 'x';", ";", "option d = { e: 1 };"}
MultiPlaces == {"@", "message M { @ optional int32 a = 1; ` }", "message M { oneof o { @ int32 a = 1; ` } }", "enum E { @ A = 0; ` }", "service S { @ rpc R (A) returns (B) { ` @ } ` }"}
FamOptStmts(Big) ==
  {Fill(t, x, y) : t \in MultiPlaces, x \in Cats(All(OptMulti), 2), y \in Cats(All(OptMulti), IF Big THEN 3 ELSE 2)}
BrackPlaces == {"message M { optional int32 a = 1 [@]; optional int32 b = 2 [`]; }", "message M { extensions 1, 3 [@]; extensions 4 to 5, 7 [`]; }",
  "enum E { A = 0 [@]; B = 1 [`]; }", "message M { oneof o { int32 a = 1 [@]; } map<int32, X> m = 2 [`]; }", "message M { repeated group A = 1 [@] { extensions 1 [`]; } }"}
FamOptBrackets(Big) ==
  {Fill(t, Commas(x), Commas(y)) : t \in BrackPlaces,
     x \in SeqUpTo(All({"a = 1", "(b).c = 'x'", "d = { e: 1 }", "a = 2"}), 2) \ {<<>>}, y \in SeqUpTo(All({"a = 1", "f = g", "(h) = -1.5"}), 2) \ {<<>>}}
\* names of several parts
NameParts == {"a", "(b)", "(.c.d)", "default", "(json_name)"}
Dots(q) == FlattenSeq([i \in 1..Len(q) |-> IF i = 1 THEN q[i] ELSE <<46>> \o q[i]])
FamOptNames(Big) ==
  {Fill(t, Dots(q), v) : q \in SeqUpTo(All(NameParts), IF Big THEN 5 ELSE 4) \ {<<>>}, v \in All({"1", "{ x: 1 }"}),
     t \in {"option @ = `;", "message M { optional int32 a = 1 [@ = `]; }"}}
  \cup {Fill(t, Dots(q), v) : q \in SeqN(All({"a", "(b)"}), 4) \cup SeqN(All({"a", "(b)"}), 5), v \in All({"-x", "'a' \"b\"", "{ x: 1 }", "{}", "-2.5"}),
     t \in {"message M { extensions 1 [z = 1, @ = `, y = 2]; }", "enum E { A = 0 [ @ = ` ]; }", "message M { optional int32 a = 1 [ @ /* c */ = ~ ` ]; }", "service S { rpc R (A) returns (B) { option @ = `; } }"}}
\* aggregate values, token by token
AggVals == {"1", "-1", "0x1F", "010", "18446744073709551615", "-9223372036854775808", "-9223372036854775809", "-18446744073709551615", "1.5", "-1.5", "3.141592653589793", "-2.718281828459045e-7",
  "16777217.0", "1e30", "-1e400", "123456789.125f", "1f", "-7F", "9007199254740993.0", "0.1", "1e-320", "inf", "-inf", "-nan", "- 5", "-  x", "'a'", "'a' \"b\"", "'\\\\'", "\"\\'\\\"\"", "'\\377\\1772'", "'\\x1\\n\\t\\r\\a'", "'\\u00e9\\U0001F600'", "'?\\?/'", "[]", "[1, -2.5, 'x']", "[{}, <>]",
  "{ a: 1, b: 2; c: 3 }", "< a { } >", "true", "max", "message", "{ [a.b]: 1 [.c] : 2 }", "{ [a.b/c.d] { x: 1 } }", "1 # c~", "1 // c~", "1 /* c */", "''"}
FamAggVals(Big) == {F2(t, v, w) : t \in {"option a = { b: @ c: ` };", "message M { optional X a = 1 [b = { c: [@, `] }]; }"}, v \in AggVals, w \in AggVals}
AggToks == All({"{", "}", "a", ":", "'s'", "[", "1", "-", "2f", "# c~", "<", ";", "/"})
FamAggregates(Big) ==
  {F1(t, FlattenSeq([i \in 1..Len(q) |-> q[i] \o <<32>>])) : t \in {"option a = {@}; message M {}", "message M { optional X a = 1 [default = {@}, b = {@}]; }"},
     q \in SeqUpTo(AggToks, IF Big THEN 4 ELSE 3)}

\* what comes after an aggregate is read as it was before it
AggModes == {"option a = @; option b = `;", "message M { optional int32 x = 1 [a = @, b = `]; }", "message M { optional int32 x = 1 [b = `, a = @]; optional int32 y = 2 [default = `]; }",
  "message M { extensions 1 [a = @] ` ; }", "option a = @ ` ; message M {}", "enum E { A = 0 [a = @ ` ]; }", "message M { optional group G = 1 [a = @] { ` } }", "message M { optional int32 x = 1 [a = @, c = 1]; option b = `; }",
  "option a = { b: 1 ` c: @ }; message M {}", "service S { rpc R (A) returns (B) { option a = @; ` } } option b = `;", "message M { optional int32 x = 1 [a = @]; ` }", "option a = ` ; option b = @;"}
\* strings of all kinds inside aggregates, and as tokens nobody expects
Utf8Cuts == {HexTexts(<<l>> \o q) : l \in {128, 194, 224, 226, 237, 240, 244, 255}, q \in SeqUpTo({130, 159, 65}, 2)}
FoundPlaces == {"message @ {}", "@", "import @ ;", "option a = 1 @ ;", "message M { @ }", "enum E { A = @ ; }", "package @;", "message M { reserved @ to 5; }", "option a = { b: @ c: 1 };", "service S { @ }", "syntax = @;"}
FoundTokens(Big) ==
  Quoted({<<97, 98>> \o x : x \in Utf8Cuts} \cup Raw8 \cup {<<97>> \o x : x \in OneEsc})
  \cup All(IntTexts \cup FloatTexts \cup {"-", "+", "/", ":", "<", ">", "[", "]", "(", ")", ",", ".", "{", "}", "=", ";", "message", "to", "a.b", ".a", "_", "''", "\"'\"", "'\"'", "'a' \"b\""})
FamFound(Big) == {F1(t, x) : t \in FoundPlaces, x \in FoundTokens(Big)}

FamAggModes(Big) ==
  {Fill(t, a, b) : t \in AggModes, a \in All({"{}", "{ a: 1f }", "{ # c~ }", "{ a { b < > } }", "{ a {", "{ $ }", "{ '\\q' }", "1", "{ b: 1 # d~ }"}),
     b \in All({"1f", "1.5F", "# c~", "1", "x", "{ b: 2f }", "-1f", "0f", "01f", "// d~", "/* # */ 1", "1.f", "}", "]", "{ # e~ }"})}

\* every short run of tokens in the place of a construct
TokPlaces == {<<"message M { reserved @; }", {"'a'", "\"b\"", ",", "1", "to", "max", "-"}, 4>>, <<"enum E { A = 0; reserved @; }", {"'a'", "\"b\"", ",", "1", "to", "max", "-"}, 4>>,
  <<"message M { extensions @; }", {"1", ",", "to", "max", "-", "[a = 1]"}, 4>>, <<"option @;", {"a", ".", "(", ")", "=", "1"}, 5>>, <<"option a = @;", {"a", "-", "1", "'s'", "{", "}", "2.5"}, 4>>,
  <<"message M { optional @ a = 1; }", {"map", "<", ">", ",", "int32", "X", "."}, 4>>, <<"package @;", {"a", ".", "1", "/* c */", "package"}, 4>>, <<"import @;", {"'a'", "\"b\"", "public", "weak", ","}, 3>>,
  <<"enum E { @ }", {"A", "=", "1", "-", ";", "[a = 1]", "option"}, 4>>, <<"enum E { A = 0; B @ }", {"=", "1", "-", ";", "[", "]", "a = 1"}, 5>>,
  <<"message M { @ }", {"optional", "int32", "a", "=", "1", ";", "."}, 4>>, <<"message M { optional @ }", {"int32", "a", "= 1", ";", "[b = 1]", "group", "{", "}"}, 4>>,
  <<"message M { map @ a = 1; }", {"<", ">", ",", "int32", "X"}, 5>>, <<"service S { rpc A (B) returns (C) @ }", {";", "{", "}", "option a = 1;", "rpc"}, 5>>,
  <<"service S { rpc A @ ; }", {"(B)", "(stream B)", "(stream)", "(stream stream)", "(.B)", "()", "returns", "(stream .B.C)", "(stream stream.B)", "(", ")"}, 3>>,
  <<"service S { rpc stream (B) returns (@); }", {"stream", ".", "B", "returns"}, 4>>, <<"syntax @ message M {}", {"=", "'proto3'", "'proto2'", ";", "''"}, 4>>,
  <<"message M { oneof o { @ } }", {"int32", "a", "= 1", ";", "optional", "option", "group", "{ }"}, 4>>, <<"extend @ }", {"A", ".", "{", "optional", "int32 a = 1;", ";", "group G = 1 { }"}, 4>>,
  <<"message M { optional int32 a = 1 @; }", {"[", "]", "a = 1", ",", "b = 'c'", ";"}, 5>>}
FamTokens(Big) == UNION {{F1(p[1], Glued(q)) : q \in SeqUpTo(All(p[2]), IF Big THEN p[3] ELSE p[3] - 1)} : p \in TokPlaces}
ImportCrowd == {<<a, b, c>> : a, b, c \in {"import weak 'c@';", "import public 'b@';", "import 'a@';"}}
FamCrowdImports(Big) == {Many(p[1] \o p[2] \o p[3], IF Big THEN 400 ELSE 100) : p \in ImportCrowd}
\* package statements
FamPackages(Big) == {Bytes(sx) \o x : sx \in Syntaxes, x \in Cats(All({"package a; ", "package b.c; ", "import 'x'; ", "message M {} ", "package ; ", "option q = 1;~"}), IF Big THEN 5 ELSE 4)}

(* ---------------- C16: imports -------------------------------------------- *)
FamImportPaths(Big) ==
  {F1(t, Q1(p)) : t \in {"import @;", "import public @;"}, p \in SeqUpTo({97, 46, 47, 92 }, IF Big THEN 5 ELSE 4)}
  \cup {F1(t, Q2(FlattenSeq(q))) : t \in {"import @;", "import weak @;"}, q \in SeqUpTo(All({"a", ".", "..", "/", "\\\\", "b.proto", "//", " ", ":"}), IF Big THEN 4 ELSE 3)}
ImpFrags == All({"import 'a';", "import public 'b';", "import weak 'c';", "import 'a';", "import public 'a/b.c';", "import weak '/x';", "import public '';", "option q = 1;", "message M {}", "import 'x' \"y\";"})
FamImportLists(Big) == {Bytes(sx) \o x : sx \in Syntaxes, x \in Cats(ImpFrags, IF Big THEN 4 ELSE 3)}

(* ---------------- C15: several violations --------------------------------- *)
SemFrags == All({"optional int32 a = 0;", "int32 b = 1;", "optional group G = 0 { int32 c = 1; }", "repeated group h = 1 {}", "map<float, X> m = 0;",
  "required map<X, X> m = 1;", "oneof o {}", "oneof o { optional int32 a = 0; map<bool, X> m = 2; }", "reserved 0;", "reserved 5 to 0, 0 to max;", "reserved '1';",
  "extensions 0 to 3 [a = -x];", "extensions 0, 0 [a = -x, b = 1];", "optional int32 a = 1 [default = 'x', json_name = 1];", "repeated int32 a = 0 [default = x, x = -y];", "map<int32, X> m = 1 [default = 1];", "optional group G = 1 [default = 1] { reserved 0; }",
  "enum E { A = 3000000000; reserved -2147483649; option a = -x; B = 1 [b = -y]; }", "extend X { required int32 a = 0; map<int32, X> m = 1; int32 q = 2; }", "message N { optional int32 z = 0; option s = -t; }",
  "optional int32 ok = 1;", "option u = -v;", "optional string s = 1 [default = '\\xff', json_name = '\\xfe'];", "optional uint32 n = 1 [default = -1];", "optional string f = 1 [default = -1.5, json_name = - 2];", "optional bool g = 1 [default = -inf];", "optional int32 w = 1 [default = -9223372036854775809, a = -9223372036854775809];"})
FamSemantic(Big) ==
  {Bytes(sx) \o F1("message M { @ }", x) : sx \in {"", "syntax = 'proto3'; "}, x \in Cats(SemFrags, IF Big THEN 3 ELSE 2)}
SynFrags == All({"message A { = }", "message B {", "enum E { A = ; }", "import x;", "import '/';", "package a;", "package ;", "option a;", "service S { rpc ; }", "extend { }", "}", "foo bar;", "$", "'abc", "/* /* */ */", "message C { optional int32 a = 0; }", "message D {}",
  "1a;", "option a = '\\q';", "syntax = 'proto2';", "message F { message G { enum H { = 1; } } }", "option b = { $ };", "09", "99999999999999999999", "option c = 1f;", "# hash~", "option d = { # ok~ };", "message I { reserved 'a-b', '1'; }", "message I { optional group g = 0 { = } }", "import '\\xff';"})
\* what a skipped stretch may hold, and where reading goes on
RecHeads == {"message A { = ", "x ", "enum E { A = ; ", "option a = } ", "service S { rpc ; } ", "message A { message B { oneof o { '' "}
RecPieces == {"= ", "; ", "} ", "{ ", "message N {} ", "option a = 1; ", "'s' ", "import 'a'; ", "message ", "enum ", "$ ", "/* c */ ", "= option ", "message = ", "= message N { ", "; package p; ", "extend X { } ", "service ", "1x ", "// d~", "[ "}
FamRecover(Big) == {Bytes(h) \o x : h \in RecHeads, x \in Cats(All(RecPieces), IF Big THEN 3 ELSE 2)}
FamSyntactic(Big) ==
  {Bytes(sx) \o x : sx \in {"", "syntax = 'proto3'; ", "syntax = 'proto4'; ", "syntax 'proto3'; "}, x \in {FlattenSeq([i \in 1..Len(q) |-> q[i] \o <<32>>]) : q \in SeqUpTo(SynFrags, 2)}}
  \cup {FlattenSeq([i \in 1..Len(q) |-> q[i] \o <<10>>]) : q \in SeqN(SynFrags, IF Big THEN 3 ELSE 0)}

(* ---------------- C11, C12, C13: layout ------------------------------------ *)
\* words separated by single spaces; between them any trivia may stand
Bases == {
  "syntax = 'proto3' ; package a . b ; import public 'x.proto' ; import weak \"y\" 'z' ;",
  "option ( .a.b ) . c = - 1.5 ; option d = 'x' \"y\" ; option e = { a : 1 b { c : 'd' } } ; option f = x ;",
  "message M { optional int32 a = 1 [ default = - 7 , json_name = 'A' , ( b ) . c = 2 ] ; repeated .a.B b = 2 ; ; }",
  "message M { map < string , .a.B > m = 1 [ x = 1 ] ; required group G = 2 [ y = 2 ] { optional bool c = 1 ; } }",
  "message M { oneof o { option a = 1 ; int32 b = 1 ; group H = 2 { } ; } reserved 1 , 2 to 5 , 7 to max ; reserved 'a' , \"b\" 'c' ; extensions 100 to max , 50 [ z = 1 ] ; }",
  "syntax = \"proto3\" ; message M { optional int32 a = 1 ; string b = 2 ; message N { } enum E { A = 0 ; } extend Q { repeated X c = 3 ; } option s = { } ; }",
  "enum E { option a = 1 ; A = 0 [ b = 2 , c = 'd' ] ; B = - 1 ; reserved - 5 to - 2 , 3 , 4 to max ; reserved 'Q' ; ; }",
  "service S { option a = 1 ; rpc A ( .b.C ) returns ( stream D ) ; rpc E ( stream F ) returns ( G ) { option h = 1 ; ; } ; }",
  "extend .a.B { optional int32 x = 1 ; repeated group Y = 2 { extensions 4 ; } } extend C { required D e = 3 ; }",
  "message M { optional int32 a = 0 ; b c = 1 ; oneof o { } reserved - 1 ; } enum E { A = 4294967296 ; }",
  "message M { optional = } message N { } import x ; enum E { A 1 } service S { rpc }",
  "import '/' ; message M { option a = 09 ; reserved '1' ; } 'x' $ ; package a ; package b ;"}
Trivs == All({"", "~", "~~", "/**/", "/* c */", "/* c~ * d */", "// c~", "~// c~", " // c~// d~", "~ // c~~", "//~/*x*/", "~/* a~   b */~"})
         \cup {<<9>>, <<13, 10>>, <<32, 13, 32>>, <<11, 12>>, <<47, 42, 195, 169, 13, 10, 42, 47>>, <<47, 47, 226, 130, 172, 13, 10>>, <<47, 42, 42, 42, 47>>, <<47, 42, 47, 32, 42, 47>>}
\* may words a and b stand next to each other without becoming one token?
Glue(a, b) ==
  LET x == a[Len(a)]
      y == b[1]
  IN ~ \/ IsIdPart(x) /\ (IsIdPart(y) \/ y = 46)
       \/ x = 46 /\ IsDigit(y)
       \/ x = 47 /\ y \in {42, 47}
RECURSIVE Tight(_, _)
Tight(q, i) == IF i > Len(q) THEN <<>>
  ELSE q[i] \o (IF i < Len(q) /\ ~Glue(q[i], q[i + 1]) THEN <<32>> ELSE <<>>) \o Tight(q, i + 1)
\* x in the gap before word k, with blanks around it where it is empty
GapText(q, k, x) ==
  Join(q, <<32>>, k, IF x = <<>> /\ k > 1 /\ k <= Len(q) /\ ~Glue(q[k - 1], q[k]) THEN <<32>>
                     ELSE IF x # <<>> /\ x[1] = 47 /\ k > 1 THEN <<32>> \o x ELSE x, 1)
LayoutsOf(t, S) ==
  LET q == Split(t) IN
  {GapText(q, k, x) : k \in 1..(Len(q) + 1), x \in S}
  \cup {Join(q, <<32>> \o x \o <<32>>, 0, <<>>, 1) : x \in S}
  \cup {Join(q, IF x = <<>> THEN <<32>> ELSE x, 0, <<>>, 1) : x \in S}
  \cup {Tight(q, 1), Join(q, <<32>>, 0, <<>>, 1)}
FamLayout(Big) == UNION {LayoutsOf(t, Trivs) : t \in Bases}

(* comments between declarations *)
ComPlaces == {
  "@ message A {}", "message A { @ }", "message A {} @ message B {}", "message A { optional int32 a = 1; @ optional int32 b = 2; }",
  "syntax = 'proto2'; @ package a;", "package a; @ import 'b';", "import 'b'; @ option x = 1;", "option x = 1; @ enum E { A = 0; }",
  "enum E { @ A = 0; }", "enum E { A = 0; @ B = 1; }", "enum E { A = 0; @ }", "service S { @ rpc M (A) returns (B); }", "service S { rpc M (A) returns (B); @ rpc N (A) returns (B) {} }",
  "service S { rpc M (A) returns (B) { @ option a = 1; } }", "service S { rpc M (A) returns (B) { } @ option b = 1; }", "message M { oneof o { @ int32 a = 1; } }", "message M { oneof o { int32 a = 1; @ } }",
  "extend A { @ optional int32 x = 1; }", "extend A { optional int32 x = 1; @ }", "message M { repeated group G = 1 { @ } }", "message M { repeated group G = 1 { reserved 1; @ extensions 2; } @ }",
  "message M { reserved 'a'; @ message N { } }", "message M { message N { } @ reserved 1; }", "message M { extensions 1; @ oneof o { int32 a = 1; } }", "message M { enum E { A = 0; } @ map<int32, X> a = 1; }",
  "message M { ; @ optional int32 a = 1; }", "; @ message M {}", "message M {} @ ; message N {}", "message M {} @"}
ComTexts == All({"// a~", "~", "/* b */", "/* c~ * d~~   e */", " "})
FamComments(Big) == {F1(t, x) : t \in ComPlaces, x \in Cats(ComTexts, IF Big THEN 4 ELSE 3)}
InnerPlaces == {"message @ M @ { }", "message M { optional @ int32 @ a @ = @ 1 @ ; optional int32 b = 2; }", "option @ a @ = @ 1 @ ; message M {}", "service S { rpc @ M ( @ A ) @ returns ( B ) @ ; @ rpc N (A) returns (B); }",
  "enum E { A @ = 0 [ @ x = 1 @ ] @ ; @ B = 1; }", "message M { optional group G = 1 [ @ a = 1 @ ] @ { @ } optional int32 z = 2; }", "syntax @ = 'proto3' @ ; message M {}", "message M { reserved @ 1 @ , 2 ; extensions 3 @ to @ 4 ; map < @ int32 , X > @ m = 1 ; oneof @ o { int32 q = 2; } }",
  "option a = { @ b : @ 1 @ } @ ; @ message M {}", "import @ 'a' @ ; package @ a . @ b ; @ message M {}", "extend @ A @ { @ optional int32 a = 1; } message M {}"}
Blanks == {<<b>> : b \in {9, 11, 12, 13}} \cup {<<32, 11, 32>>, <<13, 13, 10>>}
FamInner(Big) == {F1(t, x) : t \in InnerPlaces, x \in Cats(ComTexts, 2) \cup Blanks}
\* the text of comments, byte by byte
ComChars == {97, 32, 42, 10, 47, 13, 9}
ComPieces == All({"a", " ", "*", "~", "#"}) \cup {<<195, 169>>, <<240, 159, 152, 128>>, <<226, 128, 168>>, <<13, 10>>, <<12>>}
FamComText(Big) ==
  {F1("/*@*/ message M {}", q) : q \in SeqUpTo(ComChars, IF Big THEN 5 ELSE 4)}
  \cup {F1("/*@*/ message M {}", q) : q \in Cats(ComPieces, IF Big THEN 4 ELSE 3)}
  \cup {F1(t, q) : t \in {"package a; //@", "message M {} /*@*/", "message M {}~//@", "message M { optional int32 a = 1; //@"}, q \in SeqUpTo({97, 42, 13, 9, 32, 92, 10}, 3)}
  \cup {F1("//@~message M {}", q) : q \in SeqUpTo({97, 47, 42, 13, 9, 32}, 3)}
  \cup {F1("message M { //@~ optional int32 a = 1; /*@*/~ }", q) : q \in SeqUpTo({97, 42, 13, 32, 92}, 3)}

(* ---------------- C14: positions ------------------------------------------- *)
ErrTails == {"message M { = }", "enum E { A = 4294967296; }", "message M { int32 a = 1; }", "option a = '\\q';", "option a = 09;", "$", "message M { optional string s = 1 [default = '\\xff']; }", "import '/';", "package a; package b;", "message M { oneof o { } }",
  "message M {", "option a = 'x", "/* ", "99999999999999999999", "message M { optional group g = 1 {} }", "1a", "message M { optional int32 a = 1 [default = x]; }", "option a = -b;", "service S { rpc M A", "message M { optional int32 a = 1 [default = -1.5]; }", "message M { optional bool a = 1 [default = - 2]; }", "option a = '\\uD800';", "message M { optional string a = 1 [json_name = -inf]; }", "extend", "enum E { A = 'x'; }", "message M { reserved 'a b'; }", "option a = 1.5f;", "# x", "syntax = 'proto2';", "\"unfinished"}
PosHeads == Cats(All({"~", "  ", "message Q {} ", "/* x */", "option s = '"}) \cup {<<13, 10>>, <<13>>, <<9>>, <<47, 42, 195, 169, 42, 47>>, <<47, 47, 226, 130, 172, 240, 159, 152, 128, 10>>, <<111, 112, 116, 105, 111, 110, 32, 97, 61, 39, 195, 169, 39, 59>>}, 2)
FamPositions(Big) == {h \o Bytes(t) \o e : h \in PosHeads, t \in ErrTails, e \in {<<>>, <<10>>}}
                     \cup {FS("message A { @ @ }", t) : t \in ErrTails}

(* ---------------- C01: hostile texts ---------------------------------------- *)
RECURSIVE Times(_, _)
Times(b, n) == IF n = 0 THEN <<>> ELSE b \o Times(b, n - 1)
HostChars == {0, 9, 10, 13, 32, 34, 39, 42, 47, 92, 46, 45, 123, 125, 48, 120, 101, 97, 127, 35, 64}
FamHostile(Big) ==
  {q : q \in SeqUpTo(HostChars, IF Big THEN 3 ELSE 2)}
  \cup {F1(t, q) : t \in {"message M {@", "option a = @", "option a = {@", "import @", "enum E { A = 1 [@", "/*@", "syntax = 'proto3@", "message M { optional string s = 1 [default = '@']; }"}, q \in SeqUpTo(HostChars, 2)}
  \cup {h \o q : h \in {<<239, 187, 191>>, <<194, 160>>, <<226, 128, 168>>, <<240, 159, 152, 128>>, <<204, 129>>}, q \in {<<>>} \cup All({"message M {}", "~", "'", "//"})}

\* what can be written at the bottom of the deepest nesting, options and all
Bottoms == {"", "optional int32 a = 1 [ deprecated = true ];", "enum E { A = 0 [ deprecated = true ]; }", "enum E { option allow_alias = true; A = 0; B = 0; }", "map < int32 , bool > m = 1 [ deprecated = true ];",
            "oneof o { option features.enum_type = OPEN; int32 a = 1 [ deprecated = true ]; }", "option deprecated = true; reserved 5, 7 to 9; reserved 'x';", "extensions 100 to 199; extend A { optional int32 e = 101 [ deprecated = true ]; }",
            "enum E { A = 0 [ features . field_presence = EXPLICIT ]; }", "oneof o { int32 a = 1; }", "optional int32 a = 1 [ default = 5, json_name = 'b' ];"}

(* ---------------- C02: nesting, up to the bound and beyond ------------------ *)
\* <<opening, closing>> of one level
Levels == {<<"message A {", "}">>, <<"message A { optional group G = 1 {", "} }">>, <<"message A { oneof o { group G = 1 {", "} } }">>,
           <<"message A { extend B { optional group G = 1 {", "} } }">>}
FamDeepest(Big) ==
  {Times(Bytes("message A {"), n) \o Bytes(b) \o Times(Bytes("}"), n) : n \in (IF Big THEN {92, 93, 94} ELSE {94}), b \in Bottoms}
  \cup {Times(Bytes("message A { optional group G = 1 {"), 47) \o Bytes(b) \o Times(Bytes("} }"), 47) : b \in Bottoms}
FamDepth(Big) ==
  {Times(Bytes(l[1]), n) \o Bytes("message B { repeated group H = 1 {} }") \o Times(Bytes(l[2]), n) : l \in Levels, n \in {46, 47, 92, 93} \cup (IF Big THEN {31, 32, 94, 95, 100} ELSE {})}
  \cup {Times(Bytes("message A {"), n) \o Times(Bytes(m), 101) \o Times(Bytes("}"), n) : n \in {0, 92} \cup (IF Big THEN {91, 93} ELSE {}), m \in {"message A {}", "message A { optional group G = 1 { } }"}}
  \cup {Times(Bytes("message A { = } ") \o Bytes("message A { optional group G = 1 { ~ message B {} } } "), 60)}
  \cup {Bytes("option a = {") \o Times(Bytes("a {"), 101) \o Times(Bytes("}"), 101) \o Bytes("};")}

(* ---------------- C14, C15: one token away from a conforming text ----------- *)
OddToks == {"x", ";", "{", "}", "(", "=", ".", "-", "1", "'s'", "option", "to"}
MoreToks == OddToks \cup {"[", "]", ")", ",", "<", ">", ":", "/", "+", "2.5", "max", "message", "enum", "stream", "map", "group", "optional", "returns", "rpc", "reserved", "oneof",
  "import", "syntax", "package", "weak", "$", "09", "'\\q'", "1x", "int32", "-1", "99999999999999999999", "/* c */", "~"}
Replaced(q, k, w) == [q EXCEPT ![k] = w]
Inserted(q, k, w) == SubSeq(q, 1, k - 1) \o <<w>> \o SubSeq(q, k, Len(q))
Without(q, k) == SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q))
OneOff(q, S, ins) ==
  {Glued(SubSeq(q, 1, k)) : k \in 0..Len(q)} \cup {Glued(Without(q, k)) : k \in 1..Len(q)}
  \cup {Glued(Replaced(q, k, w)) : k \in 1..Len(q), w \in S}
  \cup (IF ins THEN {Glued(Inserted(q, k, w)) : k \in 1..Len(q) + 1, w \in S} ELSE {})
  \cup {Glued([q EXCEPT ![k] = q[k + 1], ![k + 1] = q[k]]) : k \in 1..Len(q) - 1}
FamOneOff(Big) == UNION {OneOff(Split(t), All(IF Big THEN MoreToks ELSE OddToks), Big) : t \in Bases}

\* texts that end too soon, and what may still stand behind them
CutTails == All({"", "~", " /* c */", "~/* c~ d */~", " // c", " // c~", "/**/ /**/", " /* c", " ;", " }"}) \cup {<<32, 47, 42, 195, 169, 42, 47>>, <<13, 10>>}
FamCuts(Big) == UNION {{Glued(SubSeq(q, 1, k)) \o x : k \in 0..Len(q), x \in CutTails} : q \in {Split(t) : t \in Bases}}

(* ---------------- C03: names that differ by little -------------------------- *)
TwinNames == {"A", ".A", "a.A", ".a.A", "A.a", ".A.a", "A.A", "_A", "a"}
TwinPlaces == {"extend @ { optional int32 x = 1; } extend ` { optional int32 x = 1; }", "message M { extend @ { optional int32 x = 1; } extend ` { repeated int32 x = 1; } }",
  "extend @ { optional int32 x = 1; optional ` y = 2; } extend @ { optional @ z = 3; }", "message M { optional @ a = 1; optional ` b = 2; oneof o { @ c = 3; ` d = 4; } }",
  "message M { map<int32, @> a = 1; map<int32, `> a = 2; }", "service S { rpc R (@) returns (`); rpc R (`) returns (stream @); }",
  "option (@) = 1; option (`) = 2;", "option (@).(`) = 1;", "message M { optional int32 a = 1 [(@) = 1, (`) = 1, (@).a = 2]; }", "extend @ { optional group G = 1 { extend ` { optional @ q = 2; } } }",
  "package a; message A { optional @ x = 1; message A { optional ` x = 1; } optional A y = 2; } extend @ { optional ` A = 1; }"}
FamTwins(Big) == {F2(t, a, b) : t \in TwinPlaces, a \in TwinNames, b \in TwinNames}

(* ---------------- C08: declarations inside declarations --------------------- *)
Frames == {<<"message N_m {", "}">>, <<"message K { optional int32 x_y = 1; message L { }", "}">>, <<"optional group A_b = 1 {", "}">>, <<"oneof o_p { int32 i = 7; group C_d = 2 {", "} }">>,
           <<"extend E_f { repeated group G_h = 3 {", "} }">>, <<"map<int32, X> w_x = 8; extend H { optional int32 j = 1; }", "">>}
NestLeaves == {"map<int32, X> a_b = 1;", "optional group Q_r = 4 { }", "oneof o { group S_t = 5 { } int32 u_v = 6; }", "enum E { A = 0; }", "extend X { optional group V_w = 1 { } }", "message N { } optional int32 z = 1;", "reserved 1; extensions 5;"}
RECURSIVE NestText(_, _)
NestText(q, b) == IF q = <<>> THEN b ELSE Bytes(Head(q)[1]) \o <<32>> \o NestText(Tail(q), b) \o <<32>> \o Bytes(Head(q)[2])
FamNests(Big) ==
  {Bytes("message M {") \o NestText(q, Bytes(b)) \o Bytes("}") : q \in SeqUpTo(Frames, IF Big THEN 4 ELSE 3), b \in NestLeaves}
  \cup {Bytes("message M {") \o NestText(q, Bytes(b)) \o Bytes(" ") \o NestText(p, Bytes(b)) \o Bytes("}") : q \in SeqUpTo(Frames, 2), p \in SeqN(Frames, 1), b \in NestLeaves}

(* ---------------- many of everything, and long everything ------------------- *)
ManyPlaces == {<<"import 'a@'; import public 'b@'; import weak 'c@';", "", "">>, <<"option a@ = 1@;", "", "">>, <<"/* a@ */~~", "", "message M {}">>, <<"// a@~", "", "message M {}">>, <<"message `{}~", "", "">>,
  <<"optional int32 ` = 7@;~", "message M {", "}">>, <<"map<int32, string> ` = 1;", "message M {", "}">>, <<"optional group G` = 1 {}", "message M {", "}">>, <<"oneof ` { int32 a` = 1; string b` = 2; }", "message M {", "}">>,
  <<"optional int32 ` = 1; oneof o` { bool c` = 2; }", "syntax = 'proto3'; message M {", "}">>, <<"reserved '`';", "message M {", "}">>, <<"reserved 1 to 2, 7@;", "message M {", "}">>, <<"'`', ", "message M { reserved ", "'z'; }">>, <<"1@, ", "message M { extensions ", "1 to max [a = 1]; }">>,
  <<"` = 1, ", "message M { optional int32 a = 1 [", "z = 2]; }">>, <<"option ` = '@';", "message M {", "}">>, <<"extend E` { optional int32 a` = 1; optional group G` = 2 { } }", "message M {", "}">>, <<"message ` { enum ` { A` = 0; } }", "message M {", "}">>,
  <<"` = 1;", "enum E { A = 0; ", "}">>, <<"reserved - 7@ to 0;", "enum E { A = 0; ", "}">>, <<"rpc ` (A@) returns (B@);", "service S {", "}">>, <<"option ` = 1;", "service S { rpc M (A) returns (B) {", "} }">>, <<"a@.", "option ", "b = 1;">>, <<"(a@).", "option ", "b = 1;">>, <<"a@.", "package ", "b;">>,
  <<"'a@' ", "option b = ", ";">>, <<"a@: 1 ", "option b = {", "};">>, <<"{", "option b = {", "">>, <<"a@.", "message M { optional ", "b c = 1; }">>, <<"message M { optional ` = 1; } ", "", "">>, <<"int32 ` = 0;", "message M {", "}">>, <<";", "message M {", "}">>}
LongPlaces == {"message @ {}", "message M { optional int32 @ = 1; }", "message M { map<int32, string> @ = 1; }", "message M { optional group G@ = 1 {} }", "option a = '@';", "option a = \"x@\" '@';", "option @ = @;", "package @.a;", "import '@';", "/* @ */ message M {}", "//@~message M { = }", "message M { reserved '@'; }",
  "message M { optional string s = 1 [default = '@', json_name = '@']; }", "option a = { @: '@' };", "message M { optional @ a = @; }", "enum E { @ = 0; }", "service S { rpc @ (@) returns (@); }", "message M { oneof @ { int32 a = 1; } }", "syntax = 'proto3'; message M { optional int32 @ = 1; }"}
WidePlaces == {"syntax = '@';", "syntax = 'proto3' '@'; message M { = }", "option a = '@';", "package '@';", "import '@';", "import './@';", "/* @ */ message M {}", "//@~message M { = }", "message M { reserved '@', '@@'; }", "message M { reserved '1@'; }",
  "message M { optional string s = 1 [default = '@', json_name = '@']; optional '@' = }", "message M { optional bytes s = 1 [default = '@' '@']; optional bool b = 2 [default = '@']; }", "option a = { b: '@' c: [ '@', '@' }", "enum E { '@' = 0; }", "message @ {}", "@", "option a = '@", "/* @"}
Runs(b, n) == [i \in 1..n |-> b]
FamMany(Big) ==
  {Bytes(t[2]) \o Many(t[1], n) \o Bytes(t[3]) : t \in ManyPlaces, n \in {12} \cup (IF Big THEN {130, 260} ELSE {})}
  \cup {Bytes(t[2]) \o Many(t[1], 40 + 91 * (IF Big THEN 3 ELSE 1)) \o Bytes(t[3]) : t \in ManyPlaces}
FamCrowd(Big) == {Bytes(t[2]) \o Many(t[1], IF Big THEN 700 ELSE 260) \o Bytes(t[3]) : t \in ManyPlaces}
FamLong(Big) ==
  {F1(t, Runs(b, n)) : t \in LongPlaces, b \in {97, 66}, n \in {270}}
  \cup {F1(t, Runs(b, n)) : b \in {32, 10, 9, 13}, n \in {270},
       t \in {"@message M {}", "@message M { @ optional @ int32 a = 1; @}@", "message M { = @ } @ enum E { @ 0; }", "@/* @ */@ option a = '@';", "option a = @ { b: @ c };"}}
  \cup (IF Big THEN {F1(t, Runs(b, n)) : b \in {32, 10}, n \in {5000}, t \in {"@message M { int32 a = 1; }", "message M {} @ message N {}"}} ELSE {})

FamWide(Big) ==
  {F1(t, Runs(97, k) \o Times(c, 90)) : t \in WidePlaces, k \in 0..(IF Big THEN 3 ELSE 1), c \in {<<226, 130, 172>>, <<92, 51, 55, 55>>} \cup (IF Big THEN {<<195, 169>>, <<240, 159, 152, 128>>} ELSE {})}

Family(name, big) ==
  CASE name = "names" -> FamNames(big) [] name = "ints" -> FamInts(big) [] name = "floats" -> FamFloats(big)
    [] name = "numchars" -> FamNumChars(big) [] name = "strings" -> FamStrings(big) [] name = "strmarks" -> FamStrMarks(big)
    [] name = "utf8" -> FamUtf8(big) [] name = "adjacent" -> FamAdjacent(big) [] name = "labels" -> FamLabels(big)
    [] name = "ranges" -> FamRanges(big) [] name = "rangelists" -> FamRangeLists(big) [] name = "synnames" -> FamSynNames(big)
    [] name = "clashes" -> FamClashes(big) [] name = "defaults" -> FamDefaults(big) [] name = "optlists" -> FamOptLists(big)
    [] name = "notdefault" -> FamNotDefault(big) [] name = "options" -> FamOptions(big) [] name = "optstmts" -> FamOptStmts(big)
    [] name = "optbrackets" -> FamOptBrackets(big) [] name = "aggregates" -> FamAggregates(big) [] name = "aggvals" -> FamAggVals(big)
    [] name = "importpaths" -> FamImportPaths(big) [] name = "importlists" -> FamImportLists(big)
    [] name = "semantic" -> FamSemantic(big) [] name = "syntactic" -> FamSyntactic(big) [] name = "layout" -> FamLayout(big)
    [] name = "comments" -> FamComments(big) [] name = "inner" -> FamInner(big) [] name = "comtext" -> FamComText(big)
    [] name = "positions" -> FamPositions(big) [] name = "hostile" -> FamHostile(big)
    [] name = "depth" -> FamDepth(big) [] name = "oneoff" -> FamOneOff(big)
    [] name = "defstrings" -> FamDefStrings(big) [] name = "deffloats" -> FamDefFloats(big) [] name = "aggmodes" -> FamAggModes(big)
    [] name = "cuts" -> FamCuts(big) [] name = "twins" -> FamTwins(big) [] name = "nests" -> FamNests(big)
    [] name = "pieces" -> FamPieces(big) [] name = "optnames" -> FamOptNames(big) [] name = "found" -> FamFound(big) [] name = "tokens" -> FamTokens(big)
    [] name = "crowdimports" -> FamCrowdImports(big) [] name = "packages" -> FamPackages(big) [] name = "recover" -> FamRecover(big)
    [] name = "crowd" -> FamCrowd(big) [] name = "deepest" -> FamDeepest(big) [] name = "many" -> FamMany(big) [] name = "long" -> FamLong(big) [] name = "wide" -> FamWide(big)
================================================================================
