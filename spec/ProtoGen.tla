------------------------------- MODULE ProtoGen -------------------------------
(***************************************************************************)
(* From the syntax tree of a file to its descriptor, its source locations  *)
(* and the semantic rules it violates.                                     *)
(*                                                                         *)
(* A descriptor is a record with every field present; an optional field is *)
(* a sequence of length 0 or 1.  Text that may hold any character is       *)
(* [b |-> bytes], a bytes value [y |-> bytes], a double [f |-> digits].    *)
(* Inside bytes, -1 .. -2 brackets a float shown as a token, -3 .. -4 a    *)
(* float in canonical default-value form.                                  *)
(***************************************************************************)
EXTENDS ProtoParse, FiniteSets

MaxMsgNum == 536870911
I32Max_ == 2147483647

B(bytes) == [b |-> bytes]
Opt(x) == <<x>>
None == <<>>

G(d, L, E) == [d |-> d, L |-> L, E |-> E]

LocS(p, s, e) == [p |-> p, s |-> s, e |-> e, det |-> <<>>, lead |-> <<>>, trail |-> <<>>]
Loc(p, n)  == LocS(p, n.s, n.e)
LocC(p, n) == [p |-> p, s |-> n.s, e |-> n.e, det |-> n.det, lead |-> n.lead, trail |-> n.trail]

SE(k, n) == SpanErr(k, n.s, n.e)
XE(k, x, n) == Err(k, x, <<>>, <<<<n.s, n.e>>>>)
FE(k, x, f, n) == Err(k, x, f, <<<<n.s, n.e>>>>)

StrOfBytes(b) == StrOf(b, 0, Len(b))
OptKid(n, r) == Kids(n, r)      \* a sequence of length 0 or 1

(* ------------------------------ integers -------------------------------- *)
Neg(n) == Has(n, "neg")
Digits(n) == Kid(n, "int").v
IntText(n) == (IF Neg(n) THEN <<45>> ELSE <<>>) \o DigitBytes(Digits(n))

RECURSIVE ToNat(_, _), ToNeg(_, _)
ToNat(ds, acc) == IF ds = <<>> THEN acc ELSE ToNat(Tail(ds), acc * 10 + ds[1])
ToNeg(ds, acc) == IF ds = <<>> THEN acc ELSE ToNeg(Tail(ds), acc * 10 - ds[1])

\* value as a signed 32 bit integer, if it is one
I32(n) == LET d == Digits(n) IN
  IF Neg(n) THEN IF NatLeq(d, I32MinAbs) THEN Opt(ToNeg(d, 0)) ELSE None
  ELSE IF NatLeq(d, I32Max) THEN Opt(ToNat(d, 0)) ELSE None
\* decimal text of a 64 bit / unsigned value, if in range
NegText(d) == IF d = <<0>> THEN <<48>> ELSE <<45>> \o DigitBytes(d)
SText(n, maxd, mind) == LET d == Digits(n) IN
  IF Neg(n) THEN IF NatLeq(d, mind) THEN Opt(NegText(d)) ELSE None
  ELSE IF NatLeq(d, maxd) THEN Opt(DigitBytes(d)) ELSE None
UText(n, maxd) == IF ~Neg(n) /\ NatLeq(Digits(n), maxd) THEN Opt(DigitBytes(Digits(n))) ELSE None

MsgNum(n) ==
  LET v == I32(n) IN
  IF v # None /\ v[1] >= 1 /\ v[1] <= MaxMsgNum THEN G(v, <<>>, <<>>)
  ELSE G(None, <<>>, <<SE("InvalidMessageNumber", n)>>)
EnumNum(n) ==
  LET v == I32(n) IN
  IF v # None THEN G(v, <<>>, <<>>) ELSE G(None, <<>>, <<SE("InvalidEnumNumber", n)>>)

(* -------------------------------- names --------------------------------- *)
RECURSIVE Dotted(_, _)
Dotted(q, i) == IF i > Len(q) THEN "" ELSE "." \o q[i].t \o Dotted(q, i + 1)
FullName(n) == LET q == Kids(n, "n") IN q[1].t \o Dotted(q, 2)
TypeText(n) == (IF Has(n, "dot") THEN "." ELSE "") \o FullName(n)

Upper(b) == IF IsLower(b) THEN b - 32 ELSE b
Lower(b) == IF IsUpper(b) THEN b + 32 ELSE b
RECURSIVE Pascal(_, _, _, _)
Pascal(b, i, up, acc) ==
  IF i > Len(b) THEN acc
  ELSE IF b[i] = 95 THEN Pascal(b, i + 1, TRUE, acc)
  ELSE Pascal(b, i + 1, FALSE, Append(acc, IF up THEN Upper(b[i]) ELSE b[i]))
EntryName(tok) == StrOfBytes(Pascal(tok.v, 1, TRUE, <<>>)) \o "Entry"
LowerName(tok) == StrOfBytes([i \in 1..Len(tok.v) |-> Lower(tok.v[i])])

TypeNum(t) ==
  CASE t = "double" -> 1 [] t = "float" -> 2 [] t = "int64" -> 3 [] t = "uint64" -> 4
    [] t = "int32" -> 5 [] t = "fixed64" -> 6 [] t = "fixed32" -> 7 [] t = "bool" -> 8
    [] t = "string" -> 9 [] t = "bytes" -> 12 [] t = "uint32" -> 13 [] t = "sfixed32" -> 15
    [] t = "sfixed64" -> 16 [] t = "sint32" -> 17 [] t = "sint64" -> 18
LabelNum(t) == CASE t = "optional" -> 1 [] t = "required" -> 2 [] t = "repeated" -> 3
MapKeys == Scalars \ {"double", "float", "bytes"}

IsScalar(ty) == Has(ty, "scalar")
ScalarType(ty) == IF IsScalar(ty) THEN Opt(TypeNum(Kid(ty, "scalar").t)) ELSE None
NamedType(ty) == IF IsScalar(ty) THEN None ELSE Opt(TypeText(ty))

(* ------------------------------- options -------------------------------- *)
RECURSIVE JoinToks(_, _, _)
JoinToks(q, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE JoinToks(q, i + 1, acc \o (IF i > 1 THEN <<32>> ELSE <<>>) \o ShowTok(q[i]))
AggText(val) == JoinToks(Kids(val, "a"), 1, <<>>)

\* kinds of value: id int flt str agg
ValKind(val) == IF Has(val, "agg") THEN "agg" ELSE IF Has(val, "s") THEN "str" ELSE Kid(val, "v").k
VTok(val) == Kid(val, "v")
Sign(val) == IF Neg(val) THEN <<45>> ELSE <<>>
\* the value as an integer node
AsInt(val) == [val EXCEPT !.c = [i \in 1..Len(val.c) |->
                 IF val.c[i].r = "v" THEN [val.c[i] EXCEPT !.r = "int"] ELSE val.c[i]]]

ShowVal(val) ==
  LET k == ValKind(val) IN
  CASE k = "id"  -> Sign(val) \o VTok(val).v
    [] k = "int" -> Sign(val) \o DigitBytes(VTok(val).v)
    [] k = "flt" -> Sign(val) \o <<-1>> \o VTok(val).v \o <<-2>>
    [] k = "str" -> Concat(EscOct, StrVal(val))
    [] k = "agg" -> AggText(val)

Val(opt) == Kid(opt, "val")
HasName(opt, nm) ==
  LET q == Kids(opt, "part") IN Len(q) = 1 /\ q[1].k = "npart" /\ Kid(q[1], "n").t = nm

BoolVal(val) ==
  IF ValKind(val) = "id" /\ ~Neg(val) /\ VTok(val).t \in {"true", "false"} THEN Opt(VTok(val).t) ELSE None

NoOpt == [name |-> <<>>, ident |-> None, pos |-> None, neg |-> None, dbl |-> None,
          str |-> None, agg |-> None]
NamePart(x) == IF x.k = "npart" THEN [n |-> Kid(x, "n").t, ext |-> FALSE]
               ELSE [n |-> TypeText(x), ext |-> TRUE]

Option(opt) ==
  LET val == Val(opt)
      k == ValKind(val)
      q == Kids(opt, "part")
      base == [NoOpt EXCEPT !.name = [i \in 1..Len(q) |-> NamePart(q[i])]]
      Y(o) == G(o, <<>>, <<>>)
  IN
  CASE k = "id" /\ Neg(val) -> G(NoOpt, <<>>, <<SE("NegativeIdentOutsideDefault", val)>>)
    [] k = "id" -> Y([base EXCEPT !.ident = Opt(VTok(val).t)])
    [] k = "int" /\ ~Neg(val) -> Y([base EXCEPT !.pos = Opt(B(DigitBytes(VTok(val).v)))])
    [] k = "int" -> LET t == SText(AsInt(val), I64Max, I64MinAbs) IN
         IF t = None THEN G(base, <<>>, <<FE("IntegerValueOutOfRange", "a 64-bit integer", ShowVal(val), val)>>)
         ELSE Y([base EXCEPT !.neg = Opt(B(t[1]))])
    [] k = "flt" -> Y([base EXCEPT !.dbl = Opt([f |-> Sign(val) \o VTok(val).v])])
    [] k = "str" -> Y([base EXCEPT !.str = Opt([y |-> StrVal(val)])])
    [] k = "agg" -> Y([base EXCEPT !.agg = Opt(B(AggText(val)))])

\* option statements / the options of a bracketed list, at path p
RECURSIVE OptStmts(_, _, _, _), OptItems(_, _, _, _)
OptStmts(q, p, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET g == Option(Kid(q[i], "opt")) IN
       OptStmts(q, p, i + 1, G(Append(acc.d, g.d),
                               acc.L \o <<Loc(p, q[i]), LocC(p \o <<999, i - 1>>, q[i])>>, acc.E \o g.E))
OptItems(q, p, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET g == Option(q[i]) IN
       OptItems(q, p, i + 1, G(Append(acc.d, g.d), Append(acc.L, Loc(p \o <<999, i - 1>>, q[i])), acc.E \o g.E))

Opts(d) == IF d = <<>> THEN None ELSE Opt([u |-> d])
StmtOpts(n, p) ==
  LET g == OptStmts(Kids(n, "option"), p, 1, G(<<>>, <<>>, <<>>)) IN [g EXCEPT !.d = Opts(g.d)]

\* the first option of the list with a given simple name, and the others
Take(q, nm) ==
  LET hits == {i \in 1..Len(q) : HasName(q[i], nm)} IN
  IF hits = {} THEN [o |-> None, q |-> q]
  ELSE LET i == CHOOSE i \in hits : \A j \in hits : i <= j
       IN [o |-> Opt(q[i]), q |-> SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))]

\* options of a bracketed list "ol" (0 or 1 nodes) of which q remain
ListOpts(ol, q, p) ==
  IF ol = None THEN G(None, <<>>, <<>>)
  ELSE LET g == OptItems(q, p, 1, G(<<>>, <<Loc(p, ol[1])>>, <<>>))
       IN [g EXCEPT !.d = IF @ = <<>> THEN None ELSE Opt([u |-> @])]
AllOpts(n, p) ==
  LET ol == OptKid(n, "optlist")
  IN ListOpts(ol, IF ol = None THEN <<>> ELSE Kids(ol[1], "opt"), p)

(* ------------------------------- defaults ------------------------------- *)
Txt(b) == G(Opt(B(b)), <<>>, <<>>)
BadVal(x, val) == G(None, <<>>, <<FE("ValueInvalidType", x, ShowVal(val), val)>>)
IntDefault(val, x, t) ==
  IF ValKind(val) # "int" THEN BadVal("an integer", val)
  ELSE IF t = None THEN G(None, <<>>, <<FE("IntegerValueOutOfRange", x, ShowVal(val), val)>>)
  ELSE Txt(t[1])
\* a string-valued option whose text must be UTF-8
StringVal(val) ==
  IF ValKind(val) # "str" THEN BadVal("a string", val)
  ELSE IF IsUtf8(StrVal(val)) THEN Txt(StrVal(val))
  ELSE G(None, <<>>, <<SE("InvalidUtf8String", val)>>)

Default(t, val) ==
  LET k == ValKind(val)
      iv == AsInt(val)
      IsInt == k = "int"
  IN
  CASE t \in {"double", "float"} ->
         (CASE k = "id" /\ VTok(val).t = "nan" -> Txt(RawBytes("nan"))
            [] k = "id" /\ VTok(val).t = "inf" -> Txt(Sign(val) \o RawBytes("inf"))
            [] k = "int" -> Txt(<<-3>> \o Sign(val) \o DigitBytes(VTok(val).v) \o <<-4>>)
            [] k = "flt" -> Txt(<<-3>> \o Sign(val) \o VTok(val).v \o <<-4>>)
            [] OTHER -> BadVal("a floating-point number", val))
    [] t \in {"int64", "sfixed64", "sint64"} ->
         IntDefault(val, "a signed 64-bit integer", IF IsInt THEN SText(iv, I64Max, I64MinAbs) ELSE None)
    [] t \in {"int32", "sfixed32", "sint32"} ->
         IntDefault(val, "a signed 32-bit integer", IF IsInt THEN SText(iv, I32Max, I32MinAbs) ELSE None)
    [] t \in {"uint64", "fixed64"} ->
         IntDefault(val, "an unsigned 64-bit integer", IF IsInt THEN UText(iv, U64Max) ELSE None)
    [] t \in {"uint32", "fixed32"} ->
         IntDefault(val, "an unsigned 32-bit integer", IF IsInt THEN UText(iv, U32Max) ELSE None)
    [] t = "bool" -> IF BoolVal(val) # None THEN Txt(RawBytes(BoolVal(val)[1]))
                     ELSE BadVal("either 'true' or 'false'", val)
    [] t = "string" -> StringVal(val)
    [] t = "bytes" -> IF k = "str" THEN Txt(Concat(EscOct, StrVal(val))) ELSE BadVal("a string", val)

\* default of a field of a named type: resolved later, kept as written
RawDefault(val) == Txt(IF ValKind(val) = "str" THEN <<34>> \o ShowVal(val) \o <<34>> ELSE ShowVal(val))

(* -------------------------------- fields -------------------------------- *)
FieldKind(f) == IF Has(f, "mapty") THEN "map" ELSE IF Has(f, "group") THEN "group" ELSE "normal"

Label(f, sx, scope, p) ==
  LET lab == OptKid(f, "label")
      t == IF lab = None THEN "" ELSE lab[1].t
      E(k) == G(None, <<>>, <<SE(k, lab[1])>>)
  IN
  CASE scope = "extend" /\ t = "required" -> E("RequiredExtendField")
    [] scope = "oneof" /\ t # "" -> E("OneofFieldWithLabel")
    [] scope # "oneof" /\ t = "" /\ sx = 2 -> G(None, <<>>, <<SE("Proto2FieldMissingLabel", f)>>)
    [] t = "required" /\ sx = 3 -> E("Proto3RequiredField")
    [] t # "" -> G(Opt(LabelNum(t)), <<Loc(Append(p, 4), lab[1])>>, <<>>)
    [] OTHER -> G(Opt(1), <<>>, <<>>)

NoField == [name |-> None, number |-> None, label |-> None, type |-> None, type_name |-> None,
            extendee |-> None, default |-> None, oneof_index |-> None, json_name |-> None,
            p3opt |-> None, options |-> None]
NoMsg == [name |-> None, field |-> <<>>, extension |-> <<>>, nested |-> <<>>, enum |-> <<>>,
          ext_range |-> <<>>, oneof |-> <<>>, options |-> None, res_range |-> <<>>, res_name |-> <<>>]

EntryField(name, num, ty) ==
  [NoField EXCEPT !.name = Opt(name), !.json_name = Opt(name), !.label = Opt(1), !.number = Opt(num),
                  !.type = ScalarType(ty), !.type_name = NamedType(ty)]
MapEntry(name, mt) ==
  [NoMsg EXCEPT !.name = Opt(name),
     !.field = <<EntryField("key", 1, Kid(mt, "key")), EntryField("value", 2, Kid(mt, "value"))>>,
     !.options = Opt([u |-> <<>>, map_entry |-> TRUE])]

MsgOpts(g) == [g EXCEPT !.d = IF @ = None THEN None ELSE Opt([u |-> @[1].u, map_entry |-> FALSE])]

RECURSIVE MsgBody(_, _, _), Items(_, _, _, _, _, _), OneofFields(_, _, _, _, _, _, _),
          ExtFields(_, _, _, _, _, _, _, _), Field(_, _, _, _, _, _, _, _, _)

\* field f of number-in-list idx in the scope with path p; ft, mt: tags of the
\* field and message lists of the scope, nm: messages already in the scope,
\* synth: TRUE where proto3 optional fields get a oneof, at index no
\* result: d, L, E and msgs (messages added), syn (synthetic oneofs added)
Field(f, sx, p, ft, idx, mt, nm, scope, no) ==
  LET fp == p \o <<ft, idx>>
      name == Kid(f, "name")
      kind == FieldKind(f)
      num == MsgNum(Kid(f, "int"))
      lab == OptKid(f, "label")
      t == IF lab = None THEN "" ELSE lab[1].t
      p3 == sx = 3 /\ t = "optional"
      syn == IF p3 /\ scope = "message"
             THEN <<(IF name.v[1] = 95 THEN "X" ELSE "_") \o name.t>> ELSE <<>>
      ol == OptKid(f, "optlist")
      q0 == IF ol = None THEN <<>> ELSE Kids(ol[1], "opt")
      td == Take(q0, "default")
      tj == Take(td.q, "json_name")
      dv == td.o
      e0 == IF dv = None THEN <<>>
            ELSE IF kind = "map" THEN <<XE("InvalidDefault", "map", dv[1])>>
            ELSE IF t = "repeated" THEN <<XE("InvalidDefault", "repeated", dv[1])>>
            ELSE IF sx = 3 THEN <<SE("Proto3DefaultValue", dv[1])>> ELSE <<>>
      ty == OptKid(f, "type")
      dloc == IF dv = None THEN <<>> ELSE <<Loc(Append(fp, 7), Val(dv[1]))>>
      lg == Label(f, sx, scope, fp)
      none == G(None, <<>>, <<>>)
      dg == IF dv = None THEN none
            ELSE IF IsScalar(ty[1]) THEN Default(Kid(ty[1], "scalar").t, Val(dv[1])) ELSE RawDefault(Val(dv[1]))
      jg == IF tj.o = None THEN none
            ELSE LET s == StringVal(Val(tj.o[1])) IN
                 [s EXCEPT !.L = <<Loc(Append(fp, 10), tj.o[1]), Loc(Append(fp, 10), Val(tj.o[1]))>>]
      og == ListOpts(ol, tj.q, Append(fp, 8))
      base == [NoField EXCEPT !.number = num.d, !.p3opt = IF p3 THEN Opt(TRUE) ELSE None,
                 !.oneof_index = IF syn # <<>> THEN Opt(no) ELSE None,
                 !.json_name = jg.d, !.options = og.d]
      L0 == <<Loc(Append(fp, 1), name), Loc(Append(fp, 3), Kid(f, "int"))>> \o jg.L \o og.L
      E0 == num.E \o e0
      R(d, L, E, msgs) == [d |-> d, L |-> L0 \o L, E |-> E0 \o E \o jg.E \o og.E, msgs |-> msgs, syn |-> syn]
  IN
  CASE kind = "normal" ->
         R([base EXCEPT !.name = Opt(name.t), !.label = lg.d, !.type = ScalarType(ty[1]),
              !.type_name = NamedType(ty[1]), !.default = dg.d],
           <<LocC(fp, f), Loc(Append(fp, IF IsScalar(ty[1]) THEN 5 ELSE 6), ty[1])>> \o lg.L \o dloc,
           lg.E \o dg.E, <<>>)
    [] kind = "group" ->
         LET mp == p \o <<mt, nm>>
             body == MsgBody(Kid(f, "body"), sx, mp)
         IN R([base EXCEPT !.name = Opt(LowerName(name)), !.label = lg.d, !.type = Opt(10),
                 !.type_name = Opt(name.t)],
              <<Loc(fp, f), Loc(Append(fp, 5), Kid(f, "group")), Loc(Append(fp, 6), name),
                LocC(mp, f), Loc(Append(mp, 1), name)>> \o lg.L \o body.L,
              lg.E \o (IF sx = 3 THEN <<SE("Proto3GroupField", f)>> ELSE <<>>)
                   \o (IF dv = None THEN <<>> ELSE <<XE("InvalidDefault", "group", dv[1])>>) \o body.E,
              <<[body.d EXCEPT !.name = Opt(name.t)]>>)
    [] kind = "map" ->
         LET m == Kid(f, "mapty")
             key == Kid(m, "key")
             en == EntryName(name)
             sc == CASE scope = "oneof" -> <<XE("InvalidOneofFieldKind", "map", f)>>
                     [] scope = "extend" -> <<XE("InvalidExtendFieldKind", "map", f)>>
                     [] lab # None -> <<SE("MapFieldWithLabel", lab[1])>>
                     [] OTHER -> <<>>
             ke == IF IsScalar(key) /\ Kid(key, "scalar").t \in MapKeys THEN <<>>
                   ELSE <<SE("InvalidMapFieldKeyType", key)>>
         IN R([base EXCEPT !.name = Opt(name.t), !.label = Opt(3), !.type = Opt(11), !.type_name = Opt(en)],
              <<LocC(fp, f), Loc(Append(fp, 6), m)>>, sc \o ke, <<MapEntry(en, m)>>)

(* ---------------------------- enums, services --------------------------- *)
\* the sum of a sequence of results, with the descriptors in order
Sum(q) == G([i \in 1..Len(q) |-> q[i].d], FlattenSeq([i \in 1..Len(q) |-> q[i].L]),
            FlattenSeq([i \in 1..Len(q) |-> q[i].E]))

EValue(v, p) ==
  LET num == EnumNum(Kid(v, "int"))
      o == AllOpts(v, Append(p, 3))
  IN G([name |-> Opt(Kid(v, "name").t), number |-> num.d, options |-> o.d],
       <<LocC(p, v), Loc(Append(p, 1), Kid(v, "name")), Loc(Append(p, 2), Kid(v, "int"))>> \o o.L, num.E \o o.E)

\* reserved / extension range r at path p; Num: range check, max: what "max" is
ResRange(r, p, msg, max) ==
  LET q == Kids(r, "int")
      hasMax == Has(r, "max")
      NumOf(n) == IF msg THEN MsgNum(n) ELSE EnumNum(n)
      a == NumOf(q[1])
      z == IF hasMax THEN G(Opt(max), <<>>, <<>>) ELSE IF Len(q) = 2 THEN NumOf(q[2]) ELSE G(a.d, <<>>, <<>>)
      en == IF hasMax THEN Kid(r, "max") ELSE q[Len(q)]
      End(d) == IF msg /\ d # None THEN Opt(d[1] + 1) ELSE d
  IN G([start |-> a.d, end |-> End(z.d)],
       <<Loc(p, r), Loc(Append(p, 1), q[1]), Loc(Append(p, 2), en)>>, a.E \o z.E)

ResSpan(n) == StrSpan(n)
\* all reserved statements of a scope: tags rt (ranges) and nt (names)
RECURSIVE Reserved(_, _, _, _, _, _, _, _)
Reserved(q, p, rt, nt, msg, max, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET st == q[i]
           rs == Kids(st, "range")
           ns == Kids(st, "resname")
           rg == Sum([j \in 1..Len(rs) |-> ResRange(rs[j], p \o <<rt, Len(acc.r) + j - 1>>, msg, max)])
       IN Reserved(q, p, rt, nt, msg, max, i + 1,
            IF rs # <<>>
            THEN [acc EXCEPT !.r = @ \o rg.d, !.L = Append(@, LocC(Append(p, rt), st)) \o rg.L, !.E = @ \o rg.E]
            ELSE [acc EXCEPT !.n = @ \o [j \in 1..Len(ns) |-> B(StrVal(ns[j]))],
                             !.L = Append(@, LocC(Append(p, nt), st))
                                   \o [j \in 1..Len(ns) |-> LocS(p \o <<nt, Len(acc.n) + j - 1>>,
                                                                 ResSpan(ns[j])[1], ResSpan(ns[j])[2])]])
ReservedOf(n, p, rt, nt, msg, max) ==
  Reserved(Kids(n, "reserved"), p, rt, nt, msg, max, 1, [r |-> <<>>, n |-> <<>>, L |-> <<>>, E |-> <<>>])

Enum(n, p) ==
  LET vs == Kids(n, "value")
      v == Sum([i \in 1..Len(vs) |-> EValue(vs[i], p \o <<2, i - 1>>)])
      r == ReservedOf(n, p, 4, 5, FALSE, I32Max_)
      o == StmtOpts(n, Append(p, 3))
  IN G([name |-> Opt(Kid(n, "name").t), value |-> v.d, options |-> o.d, res_range |-> r.r, res_name |-> r.n],
       <<LocC(p, n), Loc(Append(p, 1), Kid(n, "name"))>> \o v.L \o r.L \o o.L, v.E \o r.E \o o.E)

Method(n, p) ==
  LET o == StmtOpts(n, Append(p, 4))
      Flag(r, tag) == IF Has(n, r) THEN <<Loc(Append(p, tag), Kid(n, r))>> ELSE <<>>
      Val1(r) == IF Has(n, r) THEN Opt(TRUE) ELSE None
  IN G([name |-> Opt(Kid(n, "name").t), input |-> Opt(TypeText(Kid(n, "input"))),
        output |-> Opt(TypeText(Kid(n, "output"))), cs |-> Val1("cs"), ss |-> Val1("ss"), options |-> o.d],
       <<LocC(p, n), Loc(Append(p, 1), Kid(n, "name")), Loc(Append(p, 2), Kid(n, "input")),
         Loc(Append(p, 3), Kid(n, "output"))>> \o Flag("cs", 5) \o Flag("ss", 6) \o o.L, o.E)
Service(n, p) ==
  LET ms == Kids(n, "rpc")
      m == Sum([i \in 1..Len(ms) |-> Method(ms[i], p \o <<2, i - 1>>)])
      o == StmtOpts(n, Append(p, 3))
  IN G([name |-> Opt(Kid(n, "name").t), method |-> m.d, options |-> o.d],
       <<LocC(p, n), Loc(Append(p, 1), Kid(n, "name"))>> \o m.L \o o.L, m.E \o o.E)

(* ------------------------------- messages ------------------------------- *)
\* everything a list of items contributes to its scope
Acc0 == [field |-> <<>>, ext |-> <<>>, msg |-> <<>>, enum |-> <<>>, oneof |-> <<>>, syn |-> <<>>,
         svc |-> <<>>, L |-> <<>>, E |-> <<>>]

OneofFields(q, sx, p, mt, oi, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET g == Field(q[i], sx, p, 2, Len(acc.field), mt, Len(acc.msg), "oneof", 0) IN
       OneofFields(q, sx, p, mt, oi, i + 1,
         [acc EXCEPT !.field = Append(@, [g.d EXCEPT !.oneof_index = Opt(oi)]),
                     !.msg = @ \o g.msgs, !.L = @ \o g.L, !.E = @ \o g.E])

ExtFields(q, ee, sx, p, et, mt, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET g == Field(q[i], sx, p, et, Len(acc.ext), mt, Len(acc.msg), "extend", 0) IN
       ExtFields(q, ee, sx, p, et, mt, i + 1,
         [acc EXCEPT !.ext = Append(@, [g.d EXCEPT !.extendee = Opt(TypeText(ee))]),
                     !.msg = @ \o g.msgs,
                     !.L = Append(@, Loc(p \o <<et, Len(acc.ext), 2>>, ee)) \o g.L, !.E = @ \o g.E])

\* items of a file (top) or of a message; real: number of oneofs written
Items(q, sx, p, real, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET x == q[i]
           top == p = <<>>
           mt == IF top THEN 4 ELSE 3
           et == IF top THEN 5 ELSE 4
           xt == IF top THEN 7 ELSE 6
           Next1(a) == Items(q, sx, p, real, i + 1, a)
       IN
    CASE x.r = "field" ->
           LET g == Field(x, sx, p, 2, Len(acc.field), mt, Len(acc.msg), "message", real + Len(acc.syn)) IN
           Next1([acc EXCEPT !.field = Append(@, g.d), !.msg = @ \o g.msgs, !.syn = @ \o g.syn,
                             !.L = @ \o g.L, !.E = @ \o g.E])
      [] x.r = "message" ->
           LET mp == p \o <<mt, Len(acc.msg)>>
               g == MsgBody(Kid(x, "body"), sx, mp) IN
           Next1([acc EXCEPT !.msg = Append(@, [g.d EXCEPT !.name = Opt(Kid(x, "name").t)]),
                    !.L = @ \o <<LocC(mp, x), Loc(Append(mp, 1), Kid(x, "name"))>> \o g.L, !.E = @ \o g.E])
      [] x.r = "enum" ->
           LET g == Enum(x, p \o <<et, Len(acc.enum)>>) IN
           Next1([acc EXCEPT !.enum = Append(@, g.d), !.L = @ \o g.L, !.E = @ \o g.E])
      [] x.r = "service" ->
           LET g == Service(x, p \o <<6, Len(acc.svc)>>) IN
           Next1([acc EXCEPT !.svc = Append(@, g.d), !.L = @ \o g.L, !.E = @ \o g.E])
      [] x.r = "extend" ->
           Next1(ExtFields(Kids(x, "field"), Kid(x, "extendee"), sx, p, xt, mt, 1,
                           [acc EXCEPT !.L = Append(@, LocC(Append(p, xt), x))]))
      [] x.r = "oneof" ->
           LET oi == Len(acc.oneof)
               op == p \o <<8, oi>>
               o == StmtOpts(x, Append(op, 2))
               fs == Kids(x, "field")
           IN Next1(OneofFields(fs, sx, p, mt, oi, 1,
                [acc EXCEPT !.oneof = Append(@, [name |-> Opt(Kid(x, "name").t), options |-> o.d]),
                   !.L = @ \o <<LocC(op, x), Loc(Append(op, 1), Kid(x, "name"))>> \o o.L,
                   !.E = @ \o o.E \o (IF fs = <<>> THEN <<SE("EmptyOneof", x)>> ELSE <<>>)]))
      [] OTHER -> Next1(acc)

\* names for the synthetic oneofs: none of the message's other names
RECURSIVE Fresh(_, _), Unique(_, _, _)
Fresh(n, used) == IF n \in used THEN Fresh("X" \o n, used) ELSE n
Unique(q, used, acc) ==
  IF q = <<>> THEN acc
  ELSE LET n == Fresh(q[1], used) IN Unique(Tail(q), used \cup {n}, Append(acc, n))

RECURSIVE ExtRanges(_, _, _, _, _)
ExtRanges(q, p, max, i, acc) ==
  IF i > Len(q) THEN acc
  ELSE LET rs == Kids(q[i], "range")
           One(j) ==
             LET rp == p \o <<5, Len(acc.d) + j - 1>>
                 r == ResRange(rs[j], rp, TRUE, max)
                 o == AllOpts(q[i], Append(rp, 3))
             \* the options belong to every range, a problem in them is reported once
             IN G([start |-> r.d.start, end |-> r.d.end, options |-> o.d], r.L \o o.L, (IF j = 1 THEN o.E ELSE <<>>) \o r.E)
           s == Sum([j \in 1..Len(rs) |-> One(j)])
       IN ExtRanges(q, p, max, i + 1,
            G(acc.d \o s.d, Append(acc.L, LocC(Append(p, 5), q[i])) \o s.L, acc.E \o s.E))

MsgBody(n, sx, p) ==
  LET real == Len(Kids(n, "oneof"))
      a == Items(n.c, sx, p, real, 1, Acc0)
      names == {a.field[i].name[1] : i \in 1..Len(a.field)} \cup {a.oneof[i].name[1] : i \in 1..Len(a.oneof)}
      syn == Unique(a.syn, names, <<>>)
      os == Kids(n, "option")
      ms == Take([i \in 1..Len(os) |-> Kid(os[i], "opt")], "message_set_wire_format").o
      max == IF ms # None /\ BoolVal(Val(ms[1])) = Opt("true") THEN I32Max_ - 1 ELSE MaxMsgNum
      r == ReservedOf(n, p, 9, 10, TRUE, max)
      x == ExtRanges(Kids(n, "extensions"), p, max, 1, G(<<>>, <<>>, <<>>))
      o == MsgOpts(StmtOpts(n, Append(p, 7)))
  IN G([name |-> None, field |-> a.field, extension |-> a.ext, nested |-> a.msg, enum |-> a.enum,
        ext_range |-> x.d,
        oneof |-> a.oneof \o [i \in 1..Len(syn) |-> [name |-> Opt(syn[i]), options |-> None]],
        options |-> o.d, res_range |-> r.r, res_name |-> r.n],
       a.L \o r.L \o x.L \o o.L, a.E \o r.E \o x.E \o o.E)

(* --------------------------------- file --------------------------------- *)
Syntax(f) == IF Has(f, "syntax") /\ StrVal(Kid(f, "syntax")) = Bytes("proto3") THEN 3 ELSE 2

\* positions (zero based) of the imports declared with a keyword
KindIdx(q, kw) == SelectSeq([i \in 1..Len(q) |-> i],
                            LAMBDA i : Has(q[i], "kind") /\ Kid(q[i], "kind").t = kw)
File(f) ==
  LET sx == Syntax(f)
      a == Items(f.c, sx, <<>>, 0, 1, Acc0)
      imps == Kids(f, "import")
      pub == KindIdx(imps, "public")
      weak == KindIdx(imps, "weak")
      pk == OptKid(f, "package")
      o == StmtOpts(f, <<8>>)
      KindLocs(q, tag) == [i \in 1..Len(q) |-> Loc(<<tag, i - 1>>, Kid(imps[q[i]], "kind"))]
  IN G([package |-> IF pk = None THEN None ELSE Opt(FullName(pk[1])),
        dependency |-> [i \in 1..Len(imps) |-> B(StrVal(imps[i]))],
        public_dependency |-> [i \in 1..Len(pub) |-> pub[i] - 1],
        weak_dependency |-> [i \in 1..Len(weak) |-> weak[i] - 1],
        message |-> a.msg, enum |-> a.enum, service |-> a.svc, extension |-> a.ext,
        options |-> o.d, syntax |-> IF sx = 3 THEN Opt("proto3") ELSE None],
       <<Loc(<<>>, f)>> \o (IF pk = None THEN <<>> ELSE <<LocC(<<2>>, pk[1])>>)
         \o [i \in 1..Len(imps) |-> LocC(<<3, i - 1>>, imps[i])]
         \o KindLocs(pub, 10) \o KindLocs(weak, 11) \o a.L \o o.L
         \o (IF Has(f, "syntax") THEN <<LocC(<<12>>, Kid(f, "syntax"))>> ELSE <<>>),
       a.E \o o.E)

(* ------------------------------ positions ------------------------------- *)
LineStarts(src) == SelectSeq([i \in 1..Len(src) |-> IF src[i] = 10 THEN i ELSE -1], LAMBDA x : x >= 0)
\* zero-based line and column of offset o
LineCol(ls, o) ==
  LET n == Cardinality({i \in 1..Len(ls) : ls[i] <= o})
  IN <<n, IF n = 0 THEN o ELSE o - ls[n]>>
SpanOf(ls, s, e) ==
  LET a == LineCol(ls, s)
      z == LineCol(ls, e)
  IN IF a[1] = z[1] THEN <<a[1], a[2], z[2]>> ELSE <<a[1], a[2], z[1], z[2]>>
BSeq(q) == [i \in 1..Len(q) |-> B(q[i])]
OutLoc(ls, l) == [path |-> l.p, span |-> SpanOf(ls, l.s, l.e),
                  lead |-> BSeq(l.lead), trail |-> BSeq(l.trail), det |-> BSeq(l.det)]

(***************************************************************************)
(* The outcome of parsing src: ok with descriptor and locations, or the    *)
(* errors; "sem" marks errors of the second (semantic) phase.              *)
(***************************************************************************)
OutcomeOf(src, m) ==
  IF m.errs # <<>> THEN [ok |-> FALSE, sem |-> FALSE, errs |-> m.errs, fd |-> <<>>, locs |-> <<>>]
  ELSE LET g == File(FileNode(src, m)) IN
    IF g.E # <<>> THEN [ok |-> FALSE, sem |-> TRUE, errs |-> g.E, fd |-> <<>>, locs |-> <<>>]
    ELSE LET ls == LineStarts(src) IN
      [ok |-> TRUE, sem |-> FALSE, errs |-> <<>>, fd |-> g.d,
       locs |-> [i \in 1..Len(g.L) |-> OutLoc(ls, g.L[i])]]
Outcome(src) == OutcomeOf(src, Parse(src))
=============================================================================
