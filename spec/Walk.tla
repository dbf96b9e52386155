---------------------------------- MODULE Walk ----------------------------------
(***************************************************************************)
(* Files built declaration by declaration.  A state is the text so far and *)
(* the machine that read it; a step appends one fragment of the palette    *)
(* (a whole declaration, an opening or a closing brace, or a comment).     *)
(* Every state, completed in the shortest way, is a test case; in          *)
(* simulation mode only the last state of each behaviour is.               *)
(***************************************************************************)
EXTENDS Texts, Json, IOUtils

Short(n) == CASE n \in {"msgbody", "extbody", "oneofbody", "enumbody", "svcbody", "rpcbody"} -> <<125>> [] OTHER -> <<>>
RECURSIVE Closing1(_, _)
Closing1(st, i) == IF i > Len(st) THEN <<>> ELSE (IF st[i].y = "N" THEN Short(st[i].t) ELSE <<>>) \o Closing1(st, i + 1)
Closing_(st) == Closing1(st, 1)

Palette(f) ==
  CASE f = "decl" -> <<
      "message M {", " message N {~", "}", " enum E { A = 0; B = -1; }", "enum F { option a = 1;~ C = 1 [b = 2]; }", "service S { rpc A (B) returns (stream .c.D);~ rpc E (stream F) returns (G) {} }",
      " extend X {", " optional int32 a = 1;", " repeated .b.C d = 2;~", " oneof o {", " oneof p { int32 e = 3; X f = 4; }", "~optional group G = 5 {", " extensions 100 to 200;", " reserved 7;",
      ";", "extend Y { optional string g = 6; }", " optional bytes h = 8 [default = 'i'];", " string j = 9;", "map<int32, K> l = 10;" >>
    [] f = "synth" -> <<
      " map<string, X> a_b = 1;", " map<int32, int32> _a = 2;", " repeated group G = 3 {", " group H = 4 {", " optional int32 x = 5;", " optional X _x = 6;", " oneof o {", " oneof _x {", " int32 y = 7;",
      " message N {", " }", " extend Q { repeated group K = 8 { map<bool, Y> c = 1; } }", " extend R {", " message G {}", " repeated int32 X_x = 9;", " optional group AB = 10 {" >>
    [] f = "decl2" -> <<
      " message M {", " message N {~", "}", "}", " enum E { A = 0; B = -1; }", " extend X {", " optional int32 a = 1;", " repeated .b.C d = 2;~", " oneof p { int32 e = 3; X f = 4; group Q = 1 { optional int32 z = 1; } }", "~optional group G = 5 {",
      " extensions 100 to 200;", " reserved 7;", ";", " extend Y { optional string g = 6; repeated group P = 4 {} }", " optional bytes h = 8 [default = 'i'];", " required string j = 9;", "map<int32, K> l = 10;", " option w = 3;" >>
    [] f = "decl3" -> <<
      " message M {", " message N {~", "}", "}", " enum E { A = 0; B = -1; }", " extend X {", " optional int32 a = 1;", " repeated .b.C d = 2;~", " oneof p { int32 e = 3; X f = 4; }",
      " reserved 7;", ";", " extend Y { optional string g = 6; Z q = 3; }", " string j = 9;", "map<int32, K> l = 10;", " .X j_k = 3;", " optional M _a = 4;", "service S { rpc A (B) returns (stream .c.D); }" >>
    [] f = "file" -> <<
      "package a;", "package b.c;", "import 'x';", "import public 'y';", "import weak 'z';", "option a = 1;", "option (b) = { c: 2 };~", "message A {}", "message B { optional int32 a = 1; }~", "enum C { D = 0; }",
      "extend E { optional int32 f = 1; }", "service G {}", ";", "message H { extend I { repeated group J = 1 {} } }", "extend K { repeated group L = 2 {} optional group M = 3 {} }" >>
    [] f = "enumsvc" -> <<
      " enum E {", " A = 0;", " B = -5 [c = 1];", " reserved 3, 5 to 7;", " reserved 'X', \"Y\";", " option d = 1;", "}", " service S {", " rpc M (A) returns (B);", " rpc N (stream A) returns (stream .b.B) {", " rpc O (.A) returns (stream B) {}", ";" >>
    [] f = "numbers" -> <<
      " reserved 1, 3 to 5;", " reserved 'a';", " reserved 9 to max;", " extensions 2, 4 to 6;", " extensions 10 to max [a = 1, b = 2];", " option message_set_wire_format = true;", " message N {", "}", " repeated group G = 7 {", " optional int32 f = 8;", " enum E { A = 0; reserved 1, 2 to max; reserved -3; }", " extensions 1 [c = { d: 1 }];" >>
    [] f = "comments" -> <<
      "// a~", "// b~", " /* c */", "~", " /* d~ * e */", "message M {", " optional int32 f = 1;", " }", " enum E {", " A = 0;", " oneof o { int32 x = 2;", " option p = 1;" >>
    [] f = "svccom" -> <<
      " // a~", "~", "/* b */", "service S {", " rpc A (B) returns (C);", " rpc D (E) returns (F) {", " option x = 1;", " }", " extend G {", " optional int32 y = 1;", " reserved 1;", "message M {" >>

Prefix(f) == CASE f = "decl2" -> {"message Z {", "extend Z {", ""}
               [] f = "decl3" -> {"syntax = 'proto3'; message Z {", "syntax = 'proto3';"}
               [] f \in {"synth", "numbers"} -> {" message M {", "syntax = 'proto3'; message M {"}
               [] f = "decl" -> {"", "syntax = 'proto3';"}
               [] OTHER -> {""}

Frags == LET q == Palette(IOEnv.PALETTE) IN [i \in 1..Len(q) |-> Bytes(q[i])]
MaxLen == atoi(IOEnv.LEN)
Sim == IOEnv.SIM = "1"

RECURSIVE FeedAll(_, _)
FeedAll(s, m) ==
  IF Over(m) THEN m
  ELSE LET t == Trivia(s, m.pos, m.text, IF m.laste = 0 /\ m.pos = 0 THEN "rest" ELSE "first", <<>>, m.com, m.errs)
       IN IF t.la.k = "eof" THEN m ELSE FeedAll(s, Feed(s, m))

VARIABLES src, m, n
vars == <<src, m, n>>
Init == /\ src \in {Bytes(p) : p \in Prefix(IOEnv.PALETTE)}
        /\ m = FeedAll(src, M0) /\ n = 0
Append1(f) == /\ n < MaxLen /\ m.errs = <<>>
              /\ src' = src \o Frags[f]
              /\ m' = FeedAll(src', m)
              /\ n' = n + 1
              \* at most one closing text too many; depth is bounded by MaxLen
              /\ Sim => m'.errs = <<>>
Next == \E f \in 1..Len(Frags) : Append1(f)
Spec == Init /\ [][Next]_vars

Emit ==
  LET full == src \o Closing_(m.st)
      end == Finish(full, m)
      out == OutcomeOf(full, end)
  IN /\ Assert(OutcomeInv(full, end, out), <<"outcome invariant", full>>)
     /\ PrintT(ToJson([src |-> full, out |-> out]))
Emitted == IF Sim /\ n < MaxLen THEN TRUE ELSE Emit
Inv == MachineInv(src, m)
===================================================================================
