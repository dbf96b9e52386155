------------------------------ MODULE ProtoParse ------------------------------
(***************************************************************************)
(* The grammar of .proto files as a deterministic pushdown machine.        *)
(*                                                                         *)
(* The state of the machine is a record m:                                 *)
(*   pos    offset of the first byte not yet read                          *)
(*   la     the lookahead token (NoTok: none read yet)                     *)
(*   st     the stack of grammar symbols still to be matched, top first    *)
(*   open   the syntax nodes under construction, innermost last            *)
(*   errs   the errors found so far, in order                              *)
(*   com    the comments found since the last significant token            *)
(*   depth  number of message bodies open                                  *)
(*   text   inside an aggregate option value                               *)
(*   pre    still inside the syntax statement: errors there end the parse  *)
(*   laste  end of the last token consumed                                 *)
(*   mode   run, skip (recovering from an error), done or fatal            *)
(*                                                                         *)
(* One step (Feed) reads the comments and blank lines up to and including  *)
(* the next significant token and runs the machine until it needs another. *)
(***************************************************************************)
EXTENDS ProtoLex

CONSTANT MaxDepth        \* how deeply message bodies may be nested

NoTok == Tok("none", "", -1, -1, <<>>)

(* ---------------------------- comments ---------------------------------- *)
\* det: detached comments, lead: the pending comment, trail: the trailing
\* comment of the previous declaration (lead and trail have at most one
\* element); istr: no blank line since the previous token, so the pending
\* comment is a trailing one; islc: the pending comment is a run of // lines
Com0(istr) == [det |-> <<>>, lead |-> <<>>, trail |-> <<>>, istr |-> istr, islc |-> FALSE]

Flush(c) ==
  IF c.istr THEN [c EXCEPT !.trail = c.lead, !.lead = <<>>, !.istr = FALSE, !.islc = FALSE]
  ELSE [c EXCEPT !.det = c.det \o c.lead, !.lead = <<>>, !.islc = FALSE]
Detach(c) == [c EXCEPT !.istr = FALSE]
AddLine(c, txt) ==
  LET d == IF c.lead # <<>> /\ ~c.islc THEN Flush(c) ELSE c
  IN [d EXCEPT !.lead = IF d.lead = <<>> THEN <<txt>> ELSE <<d.lead[1] \o txt>>, !.islc = TRUE]
AddBlock(c, txt) ==
  LET d == IF c.lead # <<>> THEN Flush(c) ELSE c IN [d EXCEPT !.lead = <<txt>>]

Closing(tok) == tok.k = "eof" \/ (tok.k = "p" /\ tok.t \in {"}", "]", ")"})

\* phases: first   directly after a token, on its line
\*         block   after a block comment there (pend)
\*         rest    on later lines
\*         restnl  after a block comment on a later line
\*         skip    the comments up to the next token belong to nothing
RECURSIVE Trivia(_, _, _, _, _, _, _)
Trivia(src, pos, text, phase, pend, com, errs) ==
  LET r == LexRaw(src, pos, text)
      tok == r.tok
      es == errs \o r.errs
      Go(ph, pd, c) == Trivia(src, tok.e, text, ph, pd, c, es)
  IN
  CASE tok.k = "lc" ->
         (CASE phase = "first" -> Go("rest", <<>>, Flush(AddLine(com, tok.v)))
            [] phase \in {"block", "skip"} -> Go("skip", <<>>, com)
            [] OTHER -> Go("rest", <<>>, AddLine(com, tok.v)))
    [] tok.k = "bc" ->
         (CASE phase = "first" -> Go("block", tok.v, com)
            [] phase \in {"block", "skip"} -> Go("skip", <<>>, com)
            [] OTHER -> Go("restnl", <<>>, AddBlock(com, tok.v)))
    [] tok.k = "nl" ->
         (CASE phase = "first" -> Go("rest", <<>>, com)
            [] phase = "block" -> Go("rest", <<>>, Flush(AddBlock(com, pend)))
            [] phase = "restnl" -> Go("rest", <<>>, com)
            [] phase = "rest" -> Go("rest", <<>>, Detach(Flush(com)))
            [] OTHER -> Go("skip", <<>>, com))
    [] tok.k = "bad" -> [la |-> tok, pos |-> tok.e, com |-> Com0(TRUE), errs |-> es]
    [] OTHER -> [la |-> tok, pos |-> tok.e, errs |-> es,
                 com |-> IF phase \in {"rest", "restnl"} /\ Closing(tok) THEN Flush(com) ELSE com]

(* ------------------------- grammar symbols ------------------------------ *)
T(t)     == [y |-> "T", t |-> t, r |-> ""]      \* the token t
TK(t, r) == [y |-> "T", t |-> t, r |-> r]       \* the token t, kept under role r
ID(r)    == [y |-> "ID", t |-> "", r |-> r]     \* any identifier
K(r)     == [y |-> "K", t |-> "", r |-> r]      \* the lookahead, already checked
N(n)     == [y |-> "N", t |-> n, r |-> ""]      \* nonterminal
NP(n, p) == [y |-> "N", t |-> n, r |-> p]
O(k, r)  == [y |-> "O", t |-> k, r |-> r]       \* open a syntax node
C        == [y |-> "C", t |-> "", r |-> ""]     \* close it
TR       == [y |-> "TR", t |-> "", r |-> ""]    \* take the trailing comment
A(a)     == [y |-> "A", t |-> a, r |-> ""]      \* check or bookkeeping

Eager == {"groupname", "text1"}

Kw(la, t) == la.k = "id" /\ la.t = t
P(la, t) == la.k = "p" /\ la.t = t

Scalars == {"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64",
            "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes"}
Recovery == {"enum", "extend", "import", "message", "option", "service", "package"}
Labels == {"optional", "required", "repeated"}

\* terminators of a dotted name / a range list
TermSet(p) == CASE p = "ID" -> {} [] p = ";[" -> {";", "["} [] OTHER -> {p}
IsTerm(la, p) == (p = "ID" /\ la.k = "id") \/ (la.k = "p" /\ la.t \in TermSet(p))
DotOr(p) == IF p = "ID" THEN "'.' or an identifier" ELSE "'.' or '" \o p \o "'"
CommaOr(p) == IF p = ";[" THEN "',', ';' or '['" ELSE "',' or '" \o p \o "'"

Ok(p) == [e |-> "", p |-> p]
No(e) == [e |-> e, p |-> <<>>]

Expand(n, p, la) ==
  CASE n = "file" ->
         (CASE P(la, ";") -> Ok(<<T(";"), N("file")>>)
            [] la.k = "id" /\ la.t \in Recovery -> Ok(<<N(la.t), N("file")>>)
            [] OTHER -> No("'enum', 'extend', 'import', 'message', 'option', 'service', 'package' or ';'"))
    [] n = "syntax" -> Ok(<<O("syntax", "syntax"), T("syntax"), T("="), N("synval"), A("synval"),
                            T(";"), TR, C, A("endsyntax")>>)
    [] n = "synval" -> IF la.k = "str" THEN Ok(<<N("string")>>) ELSE No("a string")
    [] n = "string" -> IF la.k = "str" THEN Ok(<<K("s"), N("strings")>>) ELSE No("a string literal")
    [] n = "strings" -> IF la.k = "str" THEN Ok(<<K("s"), N("strings")>>) ELSE Ok(<<>>)

    [] n = "package" -> Ok(<<O("package", "package"), T("package"), NP("fullident", ";"),
                             T(";"), TR, C, A("onepackage")>>)
    [] n = "fullident" -> Ok(<<ID("n"), NP("fullrest", p)>>)
    [] n = "fullrest" ->
         (CASE P(la, ".") -> Ok(<<T("."), ID("n"), NP("fullrest", p)>>)
            [] IsTerm(la, p) -> Ok(<<>>)
            [] OTHER -> No(DotOr(p)))
    [] n = "import" -> Ok(<<O("import", "import"), T("import"), N("importkind"), A("utf8"), A("importpath"),
                            T(";"), TR, C>>)
    [] n = "importkind" ->
         (CASE Kw(la, "weak") \/ Kw(la, "public") -> Ok(<<K("kind"), N("string")>>)
            [] la.k = "str" -> Ok(<<N("string")>>)
            [] OTHER -> No("a string literal, 'public' or 'weak'"))

    [] n = "message" -> Ok(<<O("message", "message"), T("message"), ID("name"), T("{"), TR,
                             A("deeper"), O("body", "body"), N("msgbody"), A("shallower"), C, C>>)
    [] n = "msgbody" ->
         (CASE Kw(la, "oneof") \/ Kw(la, "enum") \/ Kw(la, "message") \/ Kw(la, "extend")
               \/ Kw(la, "option") \/ Kw(la, "reserved") \/ Kw(la, "extensions")
                 -> Ok(<<N(la.t), N("msgbody")>>)
            [] la.k = "id" \/ P(la, ".") -> Ok(<<N("field"), N("msgbody")>>)
            [] P(la, ";") -> Ok(<<T(";"), N("msgbody")>>)
            [] P(la, "}") -> Ok(<<T("}")>>)
            [] OTHER -> No("a message field, oneof, reserved range, enum, message, option or '}'"))

    [] n = "field" -> IF la.k = "id" /\ la.t \in Labels
                      THEN Ok(<<O("field", "field"), K("label"), N("fieldkind")>>)
                      ELSE Ok(<<O("field", "field"), N("fieldkind")>>)
    [] n = "fieldkind" ->
         (CASE Kw(la, "map") -> Ok(<<O("mapty", "mapty"), T("map"), T("<"), O("type", "key"), NP("type", ","), C,
                                    T(","), O("type", "value"), NP("type", ">"), C, T(">"), C, N("fieldrest")>>)
            [] Kw(la, "group") -> Ok(<<TK("group", "group"), ID("name"), A("groupname"), T("="), N("int"),
                                      N("groupopts"), T("{"), TR, A("deeper"), O("body", "body"),
                                      N("msgbody"), A("shallower"), C, C>>)
            [] OTHER -> Ok(<<N("fieldtype"), N("fieldrest")>>))
    [] n = "fieldtype" -> IF la.k = "id" \/ P(la, ".") THEN Ok(<<O("type", "type"), NP("type", "ID"), C>>)
                          ELSE No("a field type")
    [] n = "fieldrest" -> Ok(<<ID("name"), T("="), N("int"), N("opts"), T(";"), TR, C>>)
    [] n = "type" ->
         (CASE la.k = "id" /\ la.t \in Scalars -> Ok(<<K("scalar")>>)
            [] la.k = "id" \/ P(la, ".") -> Ok(<<NP("typename", p)>>)
            [] OTHER -> No("a field type"))
    [] n = "typename" ->
         (CASE P(la, ".") -> Ok(<<K("dot"), NP("fullident", p)>>)
            [] la.k = "id" -> Ok(<<NP("fullident", p)>>)
            [] OTHER -> No("a type name"))
    [] n = "int" -> IF P(la, "-") THEN Ok(<<O("int", "int"), K("neg"), N("intlit"), C>>)
                    ELSE IF la.k = "int" THEN Ok(<<O("int", "int"), K("int"), C>>) ELSE No("an integer")
    [] n = "intlit" -> IF la.k = "int" THEN Ok(<<K("int")>>) ELSE No("an integer")
    [] n = "opts" ->
         (CASE P(la, "[") -> Ok(<<N("optlist")>>)
            [] P(la, ";") -> Ok(<<>>)
            [] OTHER -> No("';' or '['"))
    [] n = "groupopts" ->
         (CASE P(la, "[") -> Ok(<<N("optlist")>>)
            [] P(la, "{") -> Ok(<<>>)
            [] OTHER -> No("'{' or '['"))

    [] n = "extend" -> Ok(<<O("extend", "extend"), T("extend"), O("type", "extendee"), NP("typename", "{"), C,
                            T("{"), TR, N("extbody")>>)
    [] n = "extbody" ->
         (CASE P(la, ";") -> Ok(<<T(";"), N("extbody")>>)
            [] P(la, "}") -> Ok(<<T("}"), C>>)
            [] la.k = "id" \/ P(la, ".") -> Ok(<<N("field"), N("extbody")>>)
            [] OTHER -> No("a message field, '}' or ';'"))
    [] n = "oneof" -> Ok(<<O("oneof", "oneof"), T("oneof"), ID("name"), T("{"), TR, N("oneofbody")>>)
    [] n = "oneofbody" ->
         (CASE Kw(la, "option") -> Ok(<<N("option"), N("oneofbody")>>)
            [] P(la, ";") -> Ok(<<T(";"), N("oneofbody")>>)
            [] P(la, "}") -> Ok(<<T("}"), C>>)
            [] la.k = "id" \/ P(la, ".") -> Ok(<<N("field"), N("oneofbody")>>)
            [] OTHER -> No("a message field, option or '}'"))

    [] n = "enum" -> Ok(<<O("enum", "enum"), T("enum"), ID("name"), T("{"), TR, N("enumbody")>>)
    [] n = "enumbody" ->
         (CASE Kw(la, "option") \/ Kw(la, "reserved") -> Ok(<<N(la.t), N("enumbody")>>)
            [] P(la, ";") -> Ok(<<T(";"), N("enumbody")>>)
            [] la.k = "id" -> Ok(<<O("evalue", "value"), ID("name"), T("="), N("int"), N("opts"),
                                  T(";"), TR, C, N("enumbody")>>)
            [] P(la, "}") -> Ok(<<T("}"), C>>)
            [] OTHER -> No("an identifier, '}', 'reserved' or 'option'"))

    [] n = "service" -> Ok(<<O("service", "service"), T("service"), ID("name"), T("{"), TR, N("svcbody")>>)
    [] n = "svcbody" ->
         (CASE Kw(la, "rpc") -> Ok(<<N("rpc"), N("svcbody")>>)
            [] Kw(la, "option") -> Ok(<<N("option"), N("svcbody")>>)
            [] P(la, ";") -> Ok(<<T(";"), N("svcbody")>>)
            [] P(la, "}") -> Ok(<<T("}"), C>>)
            [] OTHER -> No("'rpc', '}', 'option' or ';'"))
    [] n = "rpc" -> Ok(<<O("rpc", "rpc"), T("rpc"), ID("name"), T("("), NP("stream", "cs"),
                         O("type", "input"), NP("typename", ")"), C, T(")"), T("returns"), T("("),
                         NP("stream", "ss"), O("type", "output"), NP("typename", ")"), C, T(")"),
                         N("rpcend"), TR, C>>)
    [] n = "stream" ->
         (CASE Kw(la, "stream") -> Ok(<<K(p)>>)
            [] la.k = "id" \/ P(la, ".") -> Ok(<<>>)
            [] OTHER -> No("'stream' or a type name"))
    [] n = "rpcend" ->
         (CASE P(la, ";") -> Ok(<<T(";")>>)
            [] P(la, "{") -> Ok(<<T("{"), N("rpcbody")>>)
            [] OTHER -> No("';' or '{'"))
    [] n = "rpcbody" ->
         (CASE Kw(la, "option") -> Ok(<<N("option"), N("rpcbody")>>)
            [] P(la, "}") -> Ok(<<T("}")>>)
            [] P(la, ";") -> Ok(<<T(";"), N("rpcbody")>>)
            [] OTHER -> No("'option', '}' or ';'"))

    [] n = "reserved" -> Ok(<<O("reserved", "reserved"), T("reserved"), N("reskind")>>)
    [] n = "reskind" ->
         (CASE la.k = "int" \/ P(la, "-") -> Ok(<<N("range"), NP("ranges", ";"), T(";"), TR, C>>)
            [] la.k = "str" -> Ok(<<N("resname"), N("resnames"), TR, C>>)
            [] OTHER -> No("a positive integer or string"))
    [] n = "resname" -> Ok(<<O("resname", "resname"), N("string"), A("utf8"), A("identstr"), C>>)
    [] n = "resnames" ->
         (CASE P(la, ",") -> Ok(<<T(","), N("resname"), N("resnames")>>)
            [] P(la, ";") -> Ok(<<T(";")>>)
            [] OTHER -> No("',' or ';'"))
    [] n = "extensions" -> Ok(<<O("extensions", "extensions"), T("extensions"), N("range"),
                                NP("ranges", ";["), N("opts"), T(";"), TR, C>>)
    [] n = "ranges" ->
         (CASE P(la, ",") -> Ok(<<T(","), N("range"), NP("ranges", p)>>)
            [] IsTerm(la, p) -> Ok(<<>>)
            [] OTHER -> No(CommaOr(p)))
    [] n = "range" -> Ok(<<O("range", "range"), N("int"), N("rangeend"), C>>)
    [] n = "rangeend" ->
         (CASE Kw(la, "to") -> Ok(<<T("to"), N("rangemax")>>)
            [] la.k = "p" /\ la.t \in {",", ";", "["} -> Ok(<<>>)
            [] OTHER -> No("'to', ',' or ';'"))
    [] n = "rangemax" ->
         (CASE la.k = "int" \/ P(la, "-") -> Ok(<<N("int")>>)
            [] Kw(la, "max") -> Ok(<<K("max")>>)
            [] OTHER -> No("an integer or 'max'"))

    [] n = "optlist" -> Ok(<<O("optlist", "optlist"), T("["), N("optbody"), N("optrest"), C>>)
    [] n = "optrest" ->
         (CASE P(la, ",") -> Ok(<<T(","), N("optbody"), N("optrest")>>)
            [] P(la, "]") -> Ok(<<T("]")>>)
            [] OTHER -> No("',' or ']'"))
    [] n = "option" -> Ok(<<O("option", "option"), T("option"), N("optbody"), T(";"), TR, C>>)
    [] n = "optbody" -> Ok(<<O("opt", "opt"), N("npart"), N("nrest"), O("val", "val"), N("value"), C, C>>)
    [] n = "npart" ->
         (CASE la.k = "id" -> Ok(<<O("npart", "part"), ID("n"), C>>)
            [] P(la, "(") -> Ok(<<O("nparte", "part"), T("("), NP("typename", ")"), T(")"), C>>)
            [] OTHER -> No("an identifier or '('"))
    [] n = "nrest" ->
         (CASE P(la, ".") -> Ok(<<T("."), N("npart"), N("nrest")>>)
            [] P(la, "=") -> Ok(<<T("=")>>)
            [] OTHER -> No("'=' or '.'"))
    [] n = "value" ->
         (CASE P(la, "-") -> Ok(<<K("neg"), N("numeric")>>)
            [] la.k \in {"id", "int", "flt"} -> Ok(<<K("v")>>)
            [] la.k = "str" -> Ok(<<N("string")>>)
            [] P(la, "{") -> Ok(<<TK("{", "agg"), A("text1"), N("agg"), A("text0"), T("}")>>)
            [] OTHER -> No("a constant"))
    [] n = "numeric" -> IF la.k \in {"id", "int", "flt"} THEN Ok(<<K("v")>>) ELSE No("a numeric literal")
    \* text format: any tokens with balanced braces
    [] n = "agg" ->
         (CASE la.k = "eof" \/ P(la, "}") -> Ok(<<>>)
            [] P(la, "{") -> Ok(<<K("a"), N("agg"), TK("}", "a"), N("agg")>>)
            [] OTHER -> Ok(<<K("a"), N("agg")>>))

(* --------------------------- the machine -------------------------------- *)
Node0(k, r, s, com) ==
  [r |-> r, k |-> k, s |-> s, e |-> s, c |-> <<>>,
   det |-> com.det, lead |-> com.lead, trail |-> <<>>]

M0 == [pos |-> 0, la |-> NoTok, st |-> <<N("start")>>,
       open |-> <<Node0("file", "", -1, Com0(FALSE))>>,
       errs |-> <<>>, com |-> Com0(FALSE), depth |-> 0, text |-> FALSE, pre |-> TRUE,
       laste |-> 0, mode |-> "run"]

Top(m) == m.open[Len(m.open)]
AddChild(open, ch) == [open EXCEPT ![Len(open)].c = Append(@, ch)]

\* children of a node with a given role
Kids(n, r) == SelectSeq(n.c, LAMBDA x : x.r = r)
Kid(n, r) == Kids(n, r)[1]
Has(n, r) == \E i \in 1..Len(n.c) : n.c[i].r = r

StrVal(n) == Concat(LAMBDA x : x.v, Kids(n, "s"))
StrSpan(n) == LET q == Kids(n, "s") IN <<q[1].s, q[Len(q)].e>>

RECURSIVE SplitSlash(_, _, _, _)
SplitSlash(b, i, cur, acc) ==
  IF i > Len(b) THEN Append(acc, cur)
  ELSE IF b[i] = 47 THEN SplitSlash(b, i + 1, <<>>, Append(acc, cur))
  ELSE SplitSlash(b, i + 1, Append(cur, b[i]), acc)
ValidImport(b) ==
  LET q == SplitSlash(b, 1, <<>>, <<>>) IN
  \A i \in 1..Len(q) : /\ q[i] # <<>> /\ q[i] # <<46>> /\ q[i] # <<46, 46>>
                       /\ \A j \in 1..Len(q[i]) : q[i][j] # 92

\* the checks and bookkeeping the grammar asks for
AddErr(m, e) == [m EXCEPT !.errs = Append(@, e)]
SkipOn(m) == IF m.pre THEN [m EXCEPT !.mode = "fatal"]
             ELSE [m EXCEPT !.mode = "skip", !.st = <<N("file")>>, !.open = <<m.open[1]>>, !.depth = 0, !.text = FALSE]
Act(a, m) ==
  LET n == Top(m) IN
  CASE a = "synval" ->
         IF StrVal(n) \in {Bytes("proto2"), Bytes("proto3")} THEN m
         ELSE [AddErr(m, Err("UnknownSyntax", "", StrVal(n), <<StrSpan(n)>>)) EXCEPT !.mode = "fatal"]
    [] a = "endsyntax" -> [m EXCEPT !.pre = FALSE]
    [] a = "onepackage" ->
         LET q == Kids(n, "package") IN
         IF Len(q) < 2 THEN m
         ELSE [AddErr(m, Err("DuplicatePackage", "", <<>>,
                             <<<<q[1].s, q[1].e>>, <<q[Len(q)].s, q[Len(q)].e>>>>)) EXCEPT
               !.open = <<[n EXCEPT !.c = SubSeq(n.c, 1, Len(n.c) - 1)]>>]
    [] a = "utf8" -> IF IsUtf8(StrVal(n)) THEN m
                     ELSE AddErr(m, Err("InvalidUtf8String", "", <<>>, <<StrSpan(n)>>))
    [] a = "importpath" -> IF ValidImport(StrVal(n)) THEN m
                           ELSE AddErr(m, Err("InvalidImport", "", <<>>, <<StrSpan(n)>>))
    [] a = "identstr" ->
         LET b == StrVal(n) IN
         IF b # <<>> /\ IsIdStart(b[1]) /\ \A i \in 1..Len(b) : IsIdPart(b[i]) THEN m
         ELSE AddErr(m, Err("InvalidIdentifier", "", <<>>, <<StrSpan(n)>>))
    [] a = "groupname" ->
         LET x == Kid(n, "name") IN
         IF IsUpper(x.v[1]) THEN m ELSE AddErr(m, SpanErr("InvalidGroupName", x.s, x.e))
    [] a = "deeper" ->
         LET x == Kid(n, "name") IN
         IF m.depth < MaxDepth THEN [m EXCEPT !.depth = @ + 1]
         ELSE SkipOn(AddErr(m, SpanErr("MessageNestingTooDeep", x.s, x.e)))
    [] a = "shallower" -> [m EXCEPT !.depth = @ - 1]
    [] a = "text1" -> [m EXCEPT !.text = TRUE]
    [] a = "text0" -> [m EXCEPT !.text = FALSE]

SyntaxError(m, expected) ==
  SkipOn(AddErr(m, IF m.la.k = "eof" THEN EofErr(expected)
                   ELSE Err("UnexpectedToken", expected, ShowTok(m.la), <<<<m.la.s, m.la.e>>>>)))

\* drop the lookahead; what is skipped is not a declaration
Drop(m) == [m EXCEPT !.la = NoTok, !.com = Com0(TRUE)]

RECURSIVE EagerActs(_)
EagerActs(m) ==
  IF m.st # <<>> /\ m.st[1].y = "A" /\ m.st[1].t \in Eager
  THEN EagerActs(Act(m.st[1].t, [m EXCEPT !.st = Tail(@)])) ELSE m

Consume(m, role) ==
  LET la == m.la IN
  EagerActs([m EXCEPT
    !.la = NoTok, !.st = Tail(@), !.com = Com0(TRUE), !.laste = la.e,
    !.open = IF role = "" THEN @
             ELSE AddChild(@, [r |-> role, k |-> la.k, t |-> la.t, s |-> la.s, e |-> la.e, v |-> la.v])])

RECURSIVE Exec(_)
Exec(m) ==
  IF m.la.k = "none" \/ m.mode \in {"done", "fatal"} THEN m
  ELSE IF m.mode = "skip"
  THEN IF m.la.k = "eof" \/ (m.la.k = "id" /\ m.la.t \in Recovery)
       THEN Exec([m EXCEPT !.mode = "run"]) ELSE Drop(m)
  ELSE
  LET x == m.st[1]
      needs == x.y \in {"T", "ID", "K", "N"}
      rest == [m EXCEPT !.st = Tail(@)]
  IN
  CASE needs /\ m.la.k = "bad" -> LET k == SkipOn(m) IN IF k.mode = "fatal" THEN k ELSE Drop(k)
    [] x.y = "T" ->
         IF m.la.k \in {"id", "p"} /\ m.la.t = x.t THEN Consume(m, x.r)
         ELSE Exec(SyntaxError(m, "'" \o x.t \o "'"))
    [] x.y = "ID" -> IF m.la.k = "id" THEN Consume(m, x.r) ELSE Exec(SyntaxError(m, "an identifier"))
    [] x.y = "K" -> Consume(m, x.r)
    [] x.y = "N" /\ x.t = "start" ->
         LET s == IF m.la.k = "eof" THEN m ELSE [m EXCEPT !.open[1].s = m.la.s] IN
         IF Kw(m.la, "syntax") THEN Exec([s EXCEPT !.st = <<N("syntax"), N("file")>>])
         ELSE Exec([s EXCEPT !.st = <<N("file")>>, !.pre = FALSE])
    [] x.y = "N" /\ x.t = "file" /\ m.la.k = "eof" -> [m EXCEPT !.mode = "done"]
    [] x.y = "N" ->
         LET r == Expand(x.t, x.r, m.la) IN
         IF r.e = "" THEN Exec([rest EXCEPT !.st = r.p \o @]) ELSE Exec(SyntaxError(m, r.e))
    [] x.y = "O" -> Exec([rest EXCEPT !.open = Append(@, Node0(x.t, x.r, m.la.s, m.com))])
    [] x.y = "C" ->
         LET n == [Top(m) EXCEPT !.e = m.laste]
         IN Exec([rest EXCEPT !.open = AddChild(SubSeq(@, 1, Len(@) - 1), n)])
    [] x.y = "TR" -> Exec([rest EXCEPT !.open[Len(m.open)].trail = m.com.trail])
    [] x.y = "A" -> Exec(Act(x.t, rest))

\* read one significant token and run
Feed(src, m) ==
  LET t == Trivia(src, m.pos, m.text, IF m.laste = 0 /\ m.pos = 0 THEN "rest" ELSE "first",
                  <<>>, m.com, m.errs)
  IN Exec([m EXCEPT !.pos = t.pos, !.la = t.la, !.com = t.com, !.errs = t.errs])

Over(m) == m.mode \in {"done", "fatal"}

RECURSIVE Finish(_, _)
Finish(src, m) == IF Over(m) THEN m ELSE Finish(src, Feed(src, m))
Parse(src) == Finish(src, M0)

\* the finished file node
FileNode(src, m) ==
  LET f == m.open[1] IN [f EXCEPT !.s = IF f.s < 0 THEN Len(src) ELSE f.s, !.e = m.laste]
=============================================================================
