---------------------------------- MODULE Wire ----------------------------------
(***************************************************************************)
(* Encoded descriptor sets.  The bytes are built from pieces (files,       *)
(* unrelated fields of every wire type, malformed ones), cut or altered,   *)
(* and read one top level field per transition.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Randomization

Mode == IOEnv.MODE
Count == atoi(IOEnv.SAMPLE)
Pick(S, n) == IF n = 0 \/ Cardinality(S) <= n THEN S ELSE RandomSubset(n, S)
Limit == 100                                     \* nesting the decoder accepts

(* writing *)
RECURSIVE V(_)
V(n) == IF n < 128 THEN <<n>> ELSE <<(n % 128) + 128>> \o V(n \div 128)
Key(n, w) == V(n * 8 + w)
LD(n, b) == Key(n, 2) \o V(Len(b)) \o b
Num(n, v) == Key(n, 0) \o V(v)
RECURSIVE Nest(_, _)
Nest(n, d) == IF d = 0 THEN <<>> ELSE Key(n, 3) \o Nest(n, d - 1) \o Key(n, 4)
Rep(x, n) == [i \in 1..n |-> x]

a_proto == <<97, 46, 112, 114, 111, 116, 111>>
b_proto == <<98, 46, 112, 114, 111, 116, 111>>
c_proto == <<99, 46, 112, 114, 111, 116, 111>>
Msg(ch) == LD(4, LD(1, <<ch>>))
Ext(v) == LD(8, Num(50001, v) \o LD(50002, <<104, 105>>))
FA == LD(1, a_proto) \o LD(2, <<112, 97>>) \o Msg(65)
FA2 == LD(1, a_proto) \o LD(2, <<113>>) \o Msg(65) \o Msg(66)
FAB == LD(3, b_proto) \o LD(1, a_proto) \o Msg(67) \o Ext(7)
FB == LD(1, b_proto) \o LD(2, <<98>>) \o Msg(66) \o Num(15, 5) \o Nest(100, 2)
FTwice == LD(1, b_proto) \o LD(1, c_proto) \o LD(12, <<112, 114, 111, 116, 111, 51>>) \o Ext(300)
FOpts == LD(8, Num(50001, 1)) \o LD(1, c_proto) \o LD(8, Key(50003, 5) \o <<1, 2, 3, 4>> \o Key(50004, 1) \o <<1, 2, 3, 4, 5, 6, 7, 8>>)
FLong == LD(1, a_proto) \o FlattenSeq([i \in 1..20 |-> LD(4, LD(1, <<77, 96 + i>>))]) \o LD(8, LD(50005, Rep(120, 40))) \o LD(2, <<112>>)
\* options on one thing only
FEnum == LD(1, b_proto) \o LD(5, LD(1, <<69>>) \o LD(2, LD(1, <<90>>) \o Num(2, 0) \o LD(3, Num(50001, 77))))
FEnum2 == LD(1, c_proto) \o LD(5, LD(1, <<69>>) \o LD(2, LD(1, <<90>>) \o Num(2, 0)) \o LD(3, LD(50002, <<104>>)))
FSvc == LD(1, b_proto) \o LD(4, LD(1, <<77>>)) \o LD(6, LD(1, <<83>>) \o LD(2, LD(1, <<82>>) \o LD(2, <<46, 77>>) \o LD(3, <<46, 77>>) \o LD(4, Num(50001, 3))))
FSvc2 == LD(1, c_proto) \o LD(6, LD(3, LD(50003, <<8, 1>>)) \o LD(1, <<83>>))
Fld(nm, n, more) == LD(1, <<nm>>) \o Num(3, n) \o Num(4, 1) \o Num(5, 5) \o more
FDeep == LD(1, b_proto) \o LD(4, LD(1, <<77>>) \o LD(3, LD(1, <<78>>) \o LD(2, Fld(102, 1, LD(8, Num(50001, 4))))))
FOne == LD(1, c_proto) \o LD(4, LD(1, <<77>>) \o LD(2, Fld(102, 1, Num(9, 0))) \o LD(8, LD(1, <<111>>) \o LD(2, Num(50004, 5))))
FExt == LD(1, b_proto) \o LD(4, LD(1, <<77>>) \o LD(5, Num(1, 100) \o Num(2, 200) \o LD(3, Num(50001, 6)))) \o LD(7, Fld(120, 100, LD(2, <<46, 77>>) \o LD(8, Num(50002, 7))))
FMsg == LD(1, c_proto) \o LD(4, LD(7, Num(50001, 8)) \o LD(1, <<77>>) \o LD(7, LD(50001, <<>>)) \o LD(9, Num(1, 5) \o Num(2, 6)) \o LD(10, <<122>>))
FAll == LD(1, a_proto) \o LD(4, LD(1, <<77>>) \o LD(2, Fld(102, 1, LD(8, Num(50001, 4)) \o LD(10, <<102>>))) \o LD(7, Num(50001, 9))) \o LD(5, LD(1, <<69>>) \o LD(2, LD(1, <<90>>) \o Num(2, 0) \o LD(3, Num(50001, 77))) \o LD(3, Num(50001, 10))) \o Ext(1)
GoodFiles == {FEnum, FEnum2, FSvc, FSvc2, FDeep, FOne, FExt, FMsg, FAll, FA, FA2, FAB, FB, FTwice, FOpts, FLong, <<>>, LD(1, <<>>), Msg(68)}
BadFiles == {LD(1, <<255>>), LD(1, <<195>>), Num(1, 5), Key(1, 5) \o <<97, 46, 112, 114>>, LD(1, a_proto) \o <<10, 9, 97>>, LD(1, a_proto) \o Key(4, 2), LD(1, a_proto) \o Key(15, 4),
             LD(1, a_proto) \o LD(5, LD(2, LD(3, <<8>>))), LD(1, a_proto) \o LD(6, LD(2, LD(4, Key(5, 2) \o <<9>>))), LD(1, a_proto) \o LD(4, LD(2, LD(2, <<3>>) \o Key(3, 5) \o <<1, 0, 0, 0>>)), LD(1, a_proto) \o LD(4, LD(5, LD(1, <<>>))),
             LD(1, a_proto) \o Num(4, 1), LD(1, a_proto) \o LD(4, Num(1, 1)), LD(1, a_proto) \o LD(4, <<10, 2, 65>>), LD(1, a_proto) \o <<0>>, LD(3, <<192, 128>>), LD(4, LD(1, <<237, 160, 128>>))}
Plain == {Num(2, 300), Key(3, 1) \o <<8, 7, 6, 5, 4, 3, 2, 1>>, Key(5, 5) \o <<10, 1, 65, 0>>, LD(2, LD(1, FA)), Key(4, 3) \o LD(1, FA) \o Key(4, 4),
          Key(4, 3) \o Nest(4, 2) \o Num(1, 1) \o Key(4, 4), Key(536870911 \div 8, 0) \o <<1>>, <<248, 255, 255, 255, 15, 1>>, Num(16, 1), LD(16, <<>>), Nest(6, 5), LD(7, Rep(10, 130)),
          LD(257, FA), LD(65537, FB), LD(17, FA), Key(257, 0) \o <<1>>, <<8 + 128 + 8, 0, 5>>, Key(9, 0) \o Rep(255, 9) \o <<1>>}
Broken == {Key(4, 4), Key(1, 4), Key(4, 3), Key(4, 3) \o Key(5, 4), <<14>>, <<15>>, <<0, 0>>, <<2, 0>>, Num(1, 1), Key(1, 5) \o <<0, 0, 0, 0>>, Key(1, 1) \o Rep(0, 8), Key(1, 3) \o Key(1, 4),
           Num(2, 1) \o Key(2, 0) \o Rep(255, 10), Key(2, 0) \o Rep(255, 9) \o <<2>>, Key(2, 0) \o Rep(128, 10) \o <<0>>, Key(2, 2) \o <<3, 1, 2>>, Key(1, 2) \o Rep(255, 9) \o <<1>>, Key(2, 2) \o Rep(255, 9) \o <<1>>,
           <<128, 128, 128, 128, 16, 0>>, Key(1, 2), <<10, 128>>, <<128>>, Key(3, 1) \o Rep(0, 7), Key(3, 5) \o Rep(0, 3), Key(1, 2) \o <<255, 255, 255, 255, 15>>, Nest(8, 101)}
Files == {LD(1, f) : f \in GoodFiles} \cup {Key(1, 2) \o <<Len(FA) + 128, 128, 0>> \o FA}
All == Files \cup {LD(1, f) : f \in BadFiles} \cup Plain \cup Broken \cup {Nest(8, 100), <<138, 0>> \o V(Len(FB)) \o FB}
Flat(q) == FlattenSeq(q)

VARIABLES bytes, pos, files, st, cut, pieces
vars == <<bytes, pos, files, st, cut, pieces>>
N == Len(bytes)

(* reading; a position beyond the end, or 0, is a failure *)
Bad == 0
\* the end of the varint at p
VEnd(b, p, e) == LET is == {i \in p..(IF p + 9 < e THEN p + 9 ELSE e) : b[i] < 128} IN
                 IF is = {} THEN Bad ELSE LET i == CHOOSE i \in is : \A j \in is : i <= j IN IF i = p + 9 /\ b[i] > 1 THEN Bad ELSE i + 1
Huge == 1000000000
RECURSIVE VSum(_, _, _)
VSum(b, p, q) == IF p >= q THEN 0 ELSE (b[p] % 128) + 128 * VSum(b, p + 1, q)
\* the value, or Huge when it does not fit 28 bits
VVal(b, p, q) == IF \E i \in (p + 4)..(q - 1) : b[i] % 128 # 0 THEN Huge ELSE VSum(b, p, IF q < p + 4 THEN q ELSE p + 4)
\* a key: <<number, wire type, next>>, next = Bad if there is none.  Numbers above 2^25 are not told apart.
KeyAt(b, p, e) ==
  LET q == VEnd(b, p, e)
      w == b[p] % 8
      fits == \A i \in (p + 4)..(q - 1) : IF i = p + 4 THEN b[i] % 128 < 16 ELSE b[i] % 128 = 0
      zero == \A i \in p..(q - 1) : b[i] % 128 = 0 \/ (i = p /\ b[i] % 128 < 8)
      n == IF VVal(b, p, q) = Huge THEN Huge ELSE VVal(b, p, q) \div 8
  IN IF q = Bad THEN <<0, 0, Bad>> ELSE IF ~fits \/ w \in {6, 7} \/ zero THEN <<0, 0, Bad>> ELSE <<n, w, q>>
\* keys equal as numbers (for groups): compare the bits
SameNumber(b, p, q, r, s) ==
  LET bit(x, y, i) == IF x + i < y THEN b[x + i] % 128 ELSE 0 IN
  /\ \A i \in 1..9 : bit(p, q, i) = bit(r, s, i)
  /\ (b[p] % 128) \div 8 = (b[r] % 128) \div 8

\* the end of a field of wire type w whose key is at k and whose content starts at p
RECURSIVE Skip(_, _, _, _, _, _, _)
RECURSIVE Group(_, _, _, _, _, _)
Skip(b, k, kq, w, p, e, depth) ==
  IF depth = 0 THEN Bad
  ELSE CASE w = 0 -> VEnd(b, p, e)
         [] w = 1 -> IF p + 8 <= e + 1 THEN p + 8 ELSE Bad
         [] w = 5 -> IF p + 4 <= e + 1 THEN p + 4 ELSE Bad
         [] w = 2 -> LET q == VEnd(b, p, e) IN IF q = Bad THEN Bad ELSE IF VVal(b, p, q) > e + 1 - q THEN Bad ELSE q + VVal(b, p, q)
         [] w = 3 -> Group(b, k, kq, p, e, depth)
         [] OTHER -> Bad
Group(b, k, kq, p, e, depth) ==
  IF p > e THEN Bad
  ELSE LET x == KeyAt(b, p, e) IN
       IF x[3] = Bad THEN Bad
       ELSE IF x[2] = 4 THEN IF SameNumber(b, k, kq, p, x[3]) THEN x[3] ELSE Bad
       ELSE LET q == Skip(b, p, x[3], x[2], x[3], e, depth - 1) IN IF q = Bad THEN Bad ELSE Group(b, k, kq, q, e, depth)

\* content of a length delimited field: <<from, to, next>>
Content(b, p, e) == LET q == VEnd(b, p, e) IN
  IF q = Bad THEN <<0, 0, Bad>> ELSE IF VVal(b, p, q) > e + 1 - q THEN <<0, 0, Bad>> ELSE <<q, q + VVal(b, p, q) - 1, q + VVal(b, p, q)>>

RECURSIVE Utf8(_, _, _)
Utf8(b, p, e) ==
  IF p > e THEN TRUE
  ELSE LET c == b[p] t(i) == p + i <= e /\ b[p + i] \in 128..191 IN
       IF c < 128 THEN Utf8(b, p + 1, e)
       ELSE IF c \in 194..223 THEN t(1) /\ Utf8(b, p + 2, e)
       ELSE IF c \in 224..239 THEN t(1) /\ t(2) /\ (c = 224 => b[p + 1] >= 160) /\ (c = 237 => b[p + 1] < 160) /\ Utf8(b, p + 3, e)
       ELSE IF c \in 240..244 THEN t(1) /\ t(2) /\ t(3) /\ (c = 240 => b[p + 1] >= 144) /\ (c = 244 => b[p + 1] < 144) /\ Utf8(b, p + 4, e)
       ELSE FALSE

\* fields of a message as <<number, wire type, from, to>> (content of length delimited ones, else the whole field); <<>> head "bad" on failure
RECURSIVE FieldsOf(_, _, _)
FieldsOf(b, p, e) ==
  IF p > e THEN [ok |-> TRUE, f |-> <<>>]
  ELSE LET k == KeyAt(b, p, e) IN
       IF k[3] = Bad THEN [ok |-> FALSE, f |-> <<>>]
       ELSE LET c == Content(b, k[3], e)
                q == IF k[2] = 2 THEN c[3] ELSE Skip(b, p, k[3], k[2], k[3], e, Limit)
            IN IF q = Bad THEN [ok |-> FALSE, f |-> <<>>]
               ELSE LET r == FieldsOf(b, q, e) IN
                    [ok |-> r.ok, f |-> <<IF k[2] = 2 THEN <<k[1], 2, c[1], c[2]>> ELSE <<k[1], k[2], k[3], q - 1>>>> \o r.f]
Bytes(b, f) == SubSeq(b, f[3], f[4])
All1(f, n) == SelectSeq(f, LAMBDA x : x[1] = n)
LastOf(b, f, n) == LET q == All1(f, n) IN IF q = <<>> THEN <<>> ELSE Bytes(b, q[Len(q)])

(* descriptors: what each field of each kind of descriptor holds; fields the model does not know make it unspecified *)
Worse(s, t) == IF "err" \in {s, t} THEN "err" ELSE IF "any" \in {s, t} THEN "any" ELSE "ok"
RECURSIVE WorstOf(_)
WorstOf(q) == IF q = <<>> THEN "ok" ELSE Worse(q[1], WorstOf(Tail(q)))
\* "text", "int", "opts", or the kind of a nested descriptor
Holds(T, n) ==
  LET is(m) == n \in DOMAIN m IN
  CASE T = "file" -> (IF n \in {1, 2, 3, 12} THEN "text" ELSE IF n = 8 THEN "opts" ELSE LET m == 4 :> "message" @@ 5 :> "enum" @@ 6 :> "service" @@ 7 :> "field" IN IF is(m) THEN m[n] ELSE IF n <= 14 THEN "any" ELSE "none")
    [] T = "message" -> (IF n \in {1, 10} THEN "text" ELSE IF n = 7 THEN "opts"
                         ELSE LET m == 2 :> "field" @@ 3 :> "message" @@ 4 :> "enum" @@ 5 :> "range" @@ 6 :> "field" @@ 8 :> "oneof" @@ 9 :> "reserved" IN IF is(m) THEN m[n] ELSE IF n <= 11 THEN "any" ELSE "none")
    [] T = "field" -> (IF n \in {1, 2, 6, 7, 10} THEN "text" ELSE IF n \in {3, 4, 5, 9, 17} THEN "int" ELSE IF n = 8 THEN "opts" ELSE "none")
    [] T = "oneof" -> (IF n = 1 THEN "text" ELSE IF n = 2 THEN "opts" ELSE "none")
    [] T = "enum" -> (IF n \in {1, 5} THEN "text" ELSE IF n = 2 THEN "value" ELSE IF n = 3 THEN "opts" ELSE IF n = 4 THEN "reserved" ELSE IF n <= 6 THEN "any" ELSE "none")
    [] T = "value" -> (IF n = 1 THEN "text" ELSE IF n = 2 THEN "int" ELSE IF n = 3 THEN "opts" ELSE "none")
    [] T = "service" -> (IF n = 1 THEN "text" ELSE IF n = 2 THEN "method" ELSE IF n = 3 THEN "opts" ELSE "none")
    [] T = "method" -> (IF n \in {1, 2, 3} THEN "text" ELSE IF n = 4 THEN "opts" ELSE IF n \in {5, 6} THEN "int" ELSE "none")
    [] T = "range" -> (IF n \in {1, 2} THEN "int" ELSE IF n = 3 THEN "opts" ELSE "none")
    [] T = "reserved" -> (IF n \in {1, 2} THEN "int" ELSE "none")
    [] T = "opts" -> (IF n < 1000 THEN "any" ELSE "none")
RECURSIVE Status(_, _, _, _)
\* of the descriptor of kind T in b[p..e]
Status(b, p, e, T) ==
  LET r == FieldsOf(b, p, e)
      one(f) == LET h == Holds(T, f[1]) IN
                CASE h \in {"none", "any"} -> (IF h = "none" THEN "ok" ELSE "any")
                  [] h = "text" -> (IF f[2] = 2 /\ Utf8(b, f[3], f[4]) THEN "ok" ELSE "err")
                  [] h = "int" -> (IF f[2] = 0 THEN "ok" ELSE "err")
                  [] OTHER -> (IF f[2] = 2 THEN Status(b, f[3], f[4], h) ELSE "err")
  IN IF ~r.ok THEN "err" ELSE WorstOf([i \in 1..Len(r.f) |-> one(r.f[i])])
RECURSIVE Options(_, _, _, _)
\* all the options in it, with the kind of what they are on
Options(b, p, e, T) ==
  LET f == FieldsOf(b, p, e).f
      one(x) == LET h == Holds(T, x[1]) IN
                CASE h = "opts" -> (LET g == FieldsOf(b, x[3], x[4]).f IN [j \in 1..Len(g) |-> [k |-> T, n |-> g[j][1], w |-> g[j][2], v |-> Bytes(b, g[j])]])
                  [] h \in {"none", "any", "text", "int"} -> <<>>
                  [] OTHER -> Options(b, x[3], x[4], h)
  IN FlattenSeq([i \in 1..Len(f) |-> one(f[i])])
FileAt(b, p, e) ==
  LET r == FieldsOf(b, p, e)
      s == Status(b, p, e, "file")
      ms == All1(r.f, 4)
  IN IF s # "ok" THEN [st |-> s, name |-> <<>>, pkg |-> <<>>, deps |-> <<>>, msgs |-> <<>>, syntax |-> <<>>, opts |-> <<>>]
     ELSE [st |-> "ok", name |-> LastOf(b, r.f, 1), pkg |-> LastOf(b, r.f, 2), syntax |-> LastOf(b, r.f, 12),
           deps |-> [i \in 1..Len(All1(r.f, 3)) |-> Bytes(b, All1(r.f, 3)[i])],
           msgs |-> [i \in 1..Len(ms) |-> LastOf(b, FieldsOf(b, ms[i][3], ms[i][4]).f, 1)],
           opts |-> Options(b, p, e, "file")]

\* one field of the set
Read ==
  /\ st = "read"
  /\ UNCHANGED <<bytes, cut, pieces>>
  /\ IF pos > N THEN st' = "ok" /\ UNCHANGED <<pos, files>>
     ELSE LET k == KeyAt(bytes, pos, N) IN
          IF k[3] = Bad THEN st' = "err" /\ UNCHANGED <<pos, files>>
          ELSE IF k[1] = 1
          THEN LET c == Content(bytes, k[3], N) IN
               IF k[2] # 2 \/ c[3] = Bad THEN st' = "err" /\ UNCHANGED <<pos, files>>
               ELSE LET f == FileAt(bytes, c[1], c[2]) IN
                    IF f.st = "err" THEN st' = "err" /\ UNCHANGED <<pos, files>>
                    ELSE pos' = c[3] /\ files' = Append(files, f) /\ UNCHANGED st
          ELSE LET q == Skip(bytes, pos, k[3], k[2], k[3], N, Limit) IN
               IF q = Bad THEN st' = "err" /\ UNCHANGED <<pos, files>> ELSE pos' = q /\ UNCHANGED <<files, st>>

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Changes(b) == {[b EXCEPT ![i] = x] : i \in 1..Len(b), x \in {0, 1, 4, 8, 10, 11, 12, 13, 15, 16, 34, 66, 127, 128, 255}} 
Init ==
  /\ CASE Mode = "pieces" -> pieces \in Pick([1..1 -> All], 0) \cup Pick([1..2 -> All], Count) \cup Pick([1..3 -> Files \cup Plain], Count) /\ cut = 0 /\ bytes = Flat(pieces)
       [] Mode = "cut" -> /\ pieces \in Pick([1..2 -> Files \cup Plain], Count)
                          /\ cut \in 0..(Len(Flat(pieces)) - 1)
                          /\ bytes = SubSeq(Flat(pieces), 1, cut)
       [] Mode = "alter" -> /\ pieces \in Pick([1..2 -> Files \cup Plain], Count)
                            /\ bytes \in Pick(Changes(Flat(pieces)), 60)
                            /\ cut = -1
  /\ pos = 1 /\ files = <<>> /\ st = "read"
Next == Read
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
FileCount(q) == Cardinality({i \in 1..Len(q) : q[i] \in Files \cup {<<138, 0>> \o V(Len(FB)) \o FB}})
\* well formed pieces give exactly their files, in order; a cut is noticed unless it falls between two pieces
Whole == st \in {"ok", "err"} =>
  /\ (Mode = "pieces" /\ \A i \in 1..Len(pieces) : pieces[i] \in Files \cup Plain) => st = "ok" /\ Len(files) = FileCount(pieces)
  /\ (Mode = "pieces" /\ \E i \in 1..Len(pieces) : pieces[i] \in {LD(1, f) : f \in BadFiles} /\ \A j \in 1..(i - 1) : pieces[j] \in Files \cup Plain) => st = "err"
  /\ Mode = "cut" => (st = "ok") = (cut \in {0, Len(pieces[1])})
  /\ (Mode = "cut" /\ st = "ok") => Len(files) = FileCount(IF cut >= Len(pieces[1]) THEN <<pieces[1]>> ELSE <<>>)
Forward == [][pos' >= pos /\ IsPrefix(files, files')]_vars
\* is anything unspecified?
AnyOf == \E i \in 1..Len(files) : files[i].st = "any"
FirstOf(n) == LET is == {i \in 1..Len(files) : files[i].name = n} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i <= j
Emitted == st \in {"ok", "err"} => PrintT(ToJson([mode |-> Mode, bytes |-> bytes, st |-> IF st = "ok" /\ AnyOf THEN "any" ELSE st, files |-> IF st = "ok" THEN files ELSE <<>>,
                                                  file |-> FileAt(bytes, 1, N)]))
===================================================================================
