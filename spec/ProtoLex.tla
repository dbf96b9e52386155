------------------------------ MODULE ProtoLex ------------------------------
(***************************************************************************)
(* Lexical structure of a .proto source file.                              *)
(*                                                                         *)
(* A source is a sequence of bytes (UTF-8).  All positions are zero based  *)
(* byte offsets; a span is a pair <<s, e>> with exclusive end e.           *)
(* LexRaw(src, pos, text) reads the one token that starts at the first     *)
(* non-blank position at or after pos; "text" is TRUE inside an aggregate  *)
(* option value (protobuf text format).                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

At(src, i) == IF i >= 0 /\ i < Len(src) THEN src[i + 1] ELSE -1

IsDigit(b) == b >= 48 /\ b <= 57
IsOct(b)   == b >= 48 /\ b <= 55
IsUpper(b) == b >= 65 /\ b <= 90
IsLower(b) == b >= 97 /\ b <= 122
IsAlpha(b) == IsUpper(b) \/ IsLower(b)
IsHex(b)   == IsDigit(b) \/ (b >= 65 /\ b <= 70) \/ (b >= 97 /\ b <= 102)
IsIdStart(b) == IsAlpha(b) \/ b = 95
IsIdPart(b)  == IsAlpha(b) \/ b = 95 \/ IsDigit(b)
\* blanks are \t \v \f \r and space; a newline is a token of its own
IsBlank(b) == b = 32 \/ b = 9 \/ b = 11 \/ b = 12 \/ b = 13

HexVal(b) == IF IsDigit(b) THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55

(* text of printable ASCII bytes as a TLA+ string *)
ChrTab == <<" ","!","\"","#","$","%","&","'","(",")","*","+",",","-",".","/",
            "0","1","2","3","4","5","6","7","8","9",":",";","<","=",">","?",
            "@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O",
            "P","Q","R","S","T","U","V","W","X","Y","Z","[","\\","]","^","_",
            "`","a","b","c","d","e","f","g","h","i","j","k","l","m","n","o",
            "p","q","r","s","t","u","v","w","x","y","z","{","|","}","~">>
Chr(b) == ChrTab[b - 31]

CodeTab == [c \in {ChrTab[i] : i \in 1..95} |->
              CHOOSE b \in 32..126 : ChrTab[b - 31] = c]

(* a TLA+ string (printable ASCII) as bytes; "~" stands for a newline so   *)
(* that scenario texts can be written on one line                          *)
Bytes(str) == [i \in 1..Len(str) |->
                 LET c == SubSeq(str, i, i) IN IF c = "~" THEN 10 ELSE CodeTab[c]]
RawBytes(str) == [i \in 1..Len(str) |-> CodeTab[SubSeq(str, i, i)]]

RECURSIVE StrFrom(_, _, _, _)
StrFrom(src, i, j, acc) ==
  IF i >= j THEN acc ELSE StrFrom(src, i + 1, j, acc \o Chr(src[i + 1]))
StrOf(src, i, j) == StrFrom(src, i, j, "")
Slice(src, i, j) == SubSeq(src, i + 1, j)

\* a character class as a table indexed by byte + 1
Class(P(_)) == [i \in 1..256 |-> P(i - 1)]
DigitC == Class(IsDigit)
HexC == Class(IsHex)
AlphaC == Class(IsAlpha)
IdC == Class(IsIdPart)
BlankC == Class(IsBlank)
NotNl(b) == b # 10
LineC == Class(NotNl)

\* the end of the longest run of bytes of a class that starts at offset i
RECURSIVE Run(_, _, _)
Run(src, i, c) == IF i < Len(src) /\ c[src[i + 1] + 1] THEN Run(src, i + 1, c) ELSE i

(***************************************************************************)
(* Unbounded naturals as sequences of decimal digits.                      *)
(***************************************************************************)
RECURSIVE MulAddLE(_, _, _)
MulAddLE(ds, m, c) ==
  IF ds = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAddLE(<<>>, m, c \div 10)
  ELSE LET x == ds[1] * m + c IN <<x % 10>> \o MulAddLE(Tail(ds), m, x \div 10)

RevSeq(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) ==   \* equal length digit sequences
  IF i > Len(a) THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLess(a, b, i + 1)
NatLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b, 1))
NatLeq(a, b) == ~NatLess(b, a)

U64Max == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
I64Max == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
I64MinAbs == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
U32Max == <<4,2,9,4,9,6,7,2,9,5>>
I32Max == <<2,1,4,7,4,8,3,6,4,7>>
I32MinAbs == <<2,1,4,7,4,8,3,6,4,8>>

\* value of the digits of src in [i, j) in the given radix:
\* "ok" with the decimal digits, "digit" (a digit the radix does not have)
\* or "big" (more than 64 bits), whichever comes first
RECURSIVE RadixLE(_, _, _, _, _)
RadixLE(src, i, j, radix, acc) ==
  IF i >= j THEN [r |-> "ok", v |-> IF acc = <<>> THEN <<0>> ELSE RevSeq(acc)]
  ELSE LET d == HexVal(src[i + 1]) IN
    IF d >= radix THEN [r |-> "digit", v |-> <<0>>]
    ELSE LET n == MulAddLE(acc, radix, d) IN
      IF NatLess(U64Max, RevSeq(n)) THEN [r |-> "big", v |-> <<0>>]
      ELSE RadixLE(src, i + 1, j, radix, n)

(***************************************************************************)
(* Tokens and errors                                                       *)
(* k: id int flt str p(unctuation) lc bc nl eof bad                        *)
(* t: text of an identifier or punctuation; v: digits, decoded bytes or    *)
(*    comment text                                                         *)
(***************************************************************************)
Tok(k, t, s, e, v) == [k |-> k, t |-> t, s |-> s, e |-> e, v |-> v]

\* an error: kind, expected text, offending text (bytes), labelled spans
Err(k, x, f, l) == [k |-> k, x |-> x, f |-> f, l |-> l]
SpanErr(k, s, e) == Err(k, "", <<>>, <<<<s, e>>>>)
EofErr(x) == Err("UnexpectedEof", x, <<>>, <<>>)

Res(tok, errs) == [tok |-> tok, errs |-> errs]

RECURSIVE NormNl(_, _, _)
NormNl(b, i, acc) ==     \* \r\n -> \n
  IF i > Len(b) THEN acc
  ELSE IF b[i] = 13 /\ i < Len(b) /\ b[i + 1] = 10 THEN NormNl(b, i + 1, acc)
  ELSE NormNl(b, i + 1, Append(acc, b[i]))
Norm(b) == IF \E i \in 1..Len(b) : b[i] = 13 THEN NormNl(b, 1, <<>>) ELSE b

(* ---- numbers ---- *)
\* end of a complete exponent starting at i, or i if there is none
ExpEnd(src, i) ==
  IF At(src, i) \in {69, 101}
  THEN LET j == IF At(src, i + 1) \in {43, 45} THEN i + 2 ELSE i + 1
           d == Run(src, j, DigitC)
       IN IF d > j THEN d ELSE i
  ELSE i

FloatTok(src, s, numEnd, text) ==
  LET suf == At(src, numEnd) \in {70, 102}
      e == IF suf THEN numEnd + 1 ELSE numEnd
  IN Res(Tok("flt", "", s, e, Slice(src, s, numEnd)),
         IF suf /\ ~text THEN <<SpanErr("FloatSuffixOutsideTextFormat", s, e)>> ELSE <<>>)

IntTok(src, s, e, radix, prefix) ==
  LET a == s + prefix
      space == IF IsIdStart(At(src, e))
               THEN <<SpanErr("NoSpaceBetweenIntAndIdent", a, Run(src, e + 1, AlphaC))>>
               ELSE <<>>
      r == RadixLE(src, a, e, radix, <<>>)
      bad == CASE r.r = "digit" -> <<SpanErr("InvalidOctalInteger", s, e)>>
               [] r.r = "big"   -> <<SpanErr("IntegerOutOfRange", a, e)>>
               [] OTHER         -> <<>>
  IN Res(Tok("int", "", s, e, r.v), space \o bad)

LexNumber(src, s, text) ==
  LET d == Run(src, s, DigitC) IN
  IF At(src, d) = 46
  THEN FloatTok(src, s, ExpEnd(src, Run(src, d + 1, DigitC)), text)
  ELSE IF ExpEnd(src, d) > d THEN FloatTok(src, s, ExpEnd(src, d), text)
  ELSE IF At(src, d) \in {70, 102} /\ (src[s + 1] # 48 \/ d = s + 1)
  THEN FloatTok(src, s, d, text)
  ELSE IF src[s + 1] # 48 THEN IntTok(src, s, d, 10, 0)
  ELSE IF d > s + 1 THEN IntTok(src, s, d, 8, 1)
  ELSE IF At(src, d) \in {88, 120} /\ IsHex(At(src, d + 1))
  THEN IntTok(src, s, Run(src, d + 1, HexC), 16, 2)
  ELSE IntTok(src, s, d, 10, 0)

(* ---- strings ---- *)
RECURSIVE HexNum(_, _, _, _)
HexNum(src, i, j, acc) ==
  IF i >= j THEN acc ELSE HexNum(src, i + 1, j, acc * 16 + HexVal(src[i + 1]))

Utf8Enc(c) ==
  CASE c < 128   -> <<c>>
    [] c < 2048  -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER     -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64),
                      128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* the escape whose backslash is at i: its end and the bytes it denotes;
\* ok FALSE marks a malformed escape covering [i, e)
EscBytes(e, b) == [ok |-> TRUE, e |-> e, b |-> b]
EscErr(e) == [ok |-> FALSE, e |-> e, b |-> <<>>]
AllHex(src, i, n) == \A j \in i..(i + n - 1) : IsHex(At(src, j))

Escape(src, i) ==
  LET c == At(src, i + 1) IN
  CASE c \in {120, 88} /\ IsHex(At(src, i + 2)) ->
         LET e == IF IsHex(At(src, i + 3)) THEN i + 4 ELSE i + 3
         IN EscBytes(e, <<HexNum(src, i + 2, e, 0)>>)
    [] IsOct(c) ->
         LET e == IF ~IsOct(At(src, i + 2)) THEN i + 2
                  ELSE IF ~IsOct(At(src, i + 3)) THEN i + 3 ELSE i + 4
             v == IF e = i + 2 THEN c - 48
                  ELSE IF e = i + 3 THEN (c - 48) * 8 + At(src, i + 2) - 48
                  ELSE (c - 48) * 64 + (At(src, i + 2) - 48) * 8 + At(src, i + 3) - 48
         IN IF v > 255 THEN EscErr(e) ELSE EscBytes(e, <<v>>)
    [] c = 97  -> EscBytes(i + 2, <<7>>)
    [] c = 98  -> EscBytes(i + 2, <<8>>)
    [] c = 102 -> EscBytes(i + 2, <<12>>)
    [] c = 110 -> EscBytes(i + 2, <<10>>)
    [] c = 114 -> EscBytes(i + 2, <<13>>)
    [] c = 116 -> EscBytes(i + 2, <<9>>)
    [] c = 118 -> EscBytes(i + 2, <<11>>)
    [] c \in {63, 92, 39, 34} -> EscBytes(i + 2, <<c>>)
    [] c = 117 /\ AllHex(src, i + 2, 4) ->
         LET v == HexNum(src, i + 2, i + 6, 0)
         IN IF v >= 55296 /\ v <= 57343 THEN EscErr(i + 6) ELSE EscBytes(i + 6, Utf8Enc(v))
    [] c = 85 /\ AllHex(src, i + 2, 8) ->
         LET hi == HexNum(src, i + 2, i + 6, 0)
             lo == HexNum(src, i + 6, i + 10, 0)
         IN IF hi > 16 \/ (hi = 0 /\ lo >= 55296 /\ lo <= 57343) THEN EscErr(i + 10)
            ELSE EscBytes(i + 10, Utf8Enc(hi * 65536 + lo))
    [] OTHER -> EscErr(i + 1)

\* adjacent malformed characters are reported as one span
AddStrErr(errs, k, s, e) ==
  IF errs # <<>> /\ errs[Len(errs)].l[1][2] = s
  THEN [errs EXCEPT ![Len(errs)].l = <<<<errs[Len(errs)].l[1][1], e>>>>]
  ELSE Append(errs, SpanErr(k, s, e))

RECURSIVE StrLoop(_, _, _, _, _, _)
StrLoop(src, s, term, i, val, errs) ==
  IF i >= Len(src) THEN Res(Tok("str", "", s, i, val), Append(errs, EofErr("string terminator")))
  ELSE LET b == src[i + 1] IN
  CASE b = term -> Res(Tok("str", "", s, i + 1, val), errs)
    [] b = 0 -> StrLoop(src, s, term, i + 1, val, AddStrErr(errs, "InvalidStringCharacters", i, i + 1))
    [] b = 10 -> Res(Tok("str", "", s, i + 1, val), Append(errs, SpanErr("UnterminatedString", i, i + 1)))
    [] b = 92 -> LET x == Escape(src, i) IN
                 IF x.ok THEN StrLoop(src, s, term, x.e, val \o x.b, errs)
                 ELSE StrLoop(src, s, term, x.e, val, AddStrErr(errs, "InvalidStringEscape", i, x.e))
    [] OTHER -> StrLoop(src, s, term, i + 1, Append(val, b), errs)

(* ---- comments ---- *)
LineComment(src, s, from, text) ==
  LET x == Run(src, from, LineC)
      e == IF x < Len(src) THEN x + 1 ELSE x
  IN Res(Tok("lc", "", s, e, Norm(Slice(src, from, e))),
         IF At(src, s) = 35 /\ ~text THEN <<SpanErr("HashCommentOutsideTextFormat", s, e)>> ELSE <<>>)

RECURSIVE BlockLoop(_, _, _, _, _, _, _)
BlockLoop(src, s, i, depth, last, val, errs) ==
  IF i >= Len(src)
  THEN IF last >= 0 THEN Res(Tok("bc", "", s, last, Norm(val)), errs)
       ELSE Res(Tok("bc", "", s, i, Norm(val)), Append(errs, EofErr("comment terminator")))
  ELSE LET b == src[i + 1]
           n == At(src, i + 1) IN
  IF b = 42 /\ n = 47
  THEN LET e == Run(src, i + 2, BlankC) IN
       IF depth = 1 THEN Res(Tok("bc", "", s, e, Norm(val)), errs)
       ELSE BlockLoop(src, s, e, depth - 1, e, val, errs)
  ELSE IF b = 47 /\ n = 42
  THEN BlockLoop(src, s, i + 2, depth + 1, last, val,
                 Append(errs, SpanErr("NestedBlockComment", i, i + 2)))
  ELSE IF b = 10
  THEN LET j == Run(src, i + 1, BlankC)
           k == IF At(src, j) = 42 /\ At(src, j + 1) # 47 THEN j + 1 ELSE j
       IN BlockLoop(src, s, k, depth, last, Append(val, 10), errs)
  ELSE BlockLoop(src, s, i + 1, depth, last, Append(val, b), errs)

(* ---- one token ---- *)
PunctCodes == {46, 45, 43, 40, 41, 123, 125, 91, 93, 60, 62, 44, 61, 58, 59}
CharLen(b) == IF b < 128 THEN 1 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE 4

LexRaw(src, pos, text) ==
  LET s == Run(src, pos, BlankC)
      b == At(src, s)
      P(e) == Res(Tok("p", Chr(b), s, e, <<b>>), <<>>)
  IN
  CASE b = -1 -> Res(Tok("eof", "", s, s, <<>>), <<>>)
    [] b = 10 -> Res(Tok("nl", "", s, s + 1, <<>>), <<>>)
    [] IsIdStart(b) -> LET e == Run(src, s, IdC)
                       IN Res(Tok("id", StrOf(src, s, e), s, e, Slice(src, s, e)), <<>>)
    [] IsDigit(b) -> LexNumber(src, s, text)
    [] b = 46 /\ IsDigit(At(src, s + 1)) ->
         FloatTok(src, s, ExpEnd(src, Run(src, s + 1, DigitC)), text)
    [] b \in {39, 34} -> StrLoop(src, s, b, s + 1, <<>>, <<>>)
    [] b = 47 /\ At(src, s + 1) = 47 -> LineComment(src, s, s + 2, text)
    [] b = 47 /\ At(src, s + 1) = 42 -> BlockLoop(src, s, s + 2, 1, -1, <<>>, <<>>)
    [] b = 47 -> P(s + 1)
    [] b = 35 -> LineComment(src, s, s + 1, text)
    [] b \in PunctCodes -> P(s + 1)
    [] OTHER -> LET e == s + CharLen(b)
                IN Res(Tok("bad", "", s, e, <<>>), <<SpanErr("InvalidToken", s, e)>>)

(***************************************************************************)
(* How a token is shown in messages and in aggregate option values.        *)
(* A float is shown as -1 <digits> -2: "the float denoted by <digits>".    *)
(***************************************************************************)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
DigitBytes(ds) == [i \in 1..Len(ds) |-> 48 + ds[i]]

Concat(F(_), q) == FlattenSeq([i \in 1..Len(q) |-> F(q[i])])

EscDefault(b) ==
  CASE b = 9  -> <<92, 116>>
    [] b = 13 -> <<92, 114>>
    [] b = 10 -> <<92, 110>>
    [] b \in {39, 34, 92} -> <<92, b>>
    [] b >= 32 /\ b <= 126 -> <<b>>
    [] OTHER -> <<92, 120, HexDigit(b \div 16), HexDigit(b % 16)>>

\* canonical text of a bytes default value
EscOct(b) ==
  CASE b = 9  -> <<92, 116>>
    [] b = 13 -> <<92, 114>>
    [] b = 10 -> <<92, 110>>
    [] b \in {39, 34, 92} -> <<92, b>>
    [] b >= 32 /\ b <= 126 -> <<b>>
    [] OTHER -> <<92, 48 + b \div 64, 48 + ((b \div 8) % 8), 48 + (b % 8)>>

ShowTok(tok) ==
  CASE tok.k \in {"id", "p"} -> tok.v
    [] tok.k = "int" -> DigitBytes(tok.v)
    [] tok.k = "flt" -> <<-1>> \o tok.v \o <<-2>>
    [] tok.k = "str" -> <<34>> \o Concat(EscDefault, tok.v) \o <<34>>
    [] OTHER -> <<>>

(***************************************************************************)
(* UTF-8 well-formedness of a decoded string literal                       *)
(***************************************************************************)
Cont(b) == b >= 128 /\ b <= 191
\* length of the well-formed sequence at 1-based position i, 0 if none
Utf8Len(b, i) ==
  LET A(k) == IF i + k <= Len(b) THEN b[i + k] ELSE -1 IN
  CASE b[i] < 128 -> 1
    [] b[i] >= 194 /\ b[i] <= 223 -> IF Cont(A(1)) THEN 2 ELSE 0
    [] b[i] = 224 -> IF A(1) >= 160 /\ A(1) <= 191 /\ Cont(A(2)) THEN 3 ELSE 0
    [] b[i] = 237 -> IF A(1) >= 128 /\ A(1) <= 159 /\ Cont(A(2)) THEN 3 ELSE 0
    [] b[i] >= 225 /\ b[i] <= 239 -> IF Cont(A(1)) /\ Cont(A(2)) THEN 3 ELSE 0
    [] b[i] = 240 -> IF A(1) >= 144 /\ A(1) <= 191 /\ Cont(A(2)) /\ Cont(A(3)) THEN 4 ELSE 0
    [] b[i] >= 241 /\ b[i] <= 243 -> IF Cont(A(1)) /\ Cont(A(2)) /\ Cont(A(3)) THEN 4 ELSE 0
    [] b[i] = 244 -> IF A(1) >= 128 /\ A(1) <= 143 /\ Cont(A(2)) /\ Cont(A(3)) THEN 4 ELSE 0
    [] OTHER -> 0
RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
  IF i > Len(b) THEN TRUE
  ELSE IF Utf8Len(b, i) = 0 THEN FALSE ELSE Utf8From(b, i + Utf8Len(b, i))
IsUtf8(b) == Utf8From(b, 1)
=============================================================================
