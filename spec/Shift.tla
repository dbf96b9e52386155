---------------------------------- MODULE Shift ----------------------------------
(***************************************************************************)
(* Positions far into a text.  Repeating the blank between two tokens      *)
(* moves everything after it by as much and changes nothing else.  That is *)
(* a theorem about the specification, checked here for a few repetitions,  *)
(* and it gives the outcome of texts much longer than the machine can read *)
(* in reasonable time; those are printed as test cases.                    *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils, Randomization

Count == atoi(IOEnv.SAMPLE)
Far == atoi(IOEnv.FAR)
Sample(S) == IF Count = 0 \/ Cardinality(S) <= Count THEN S ELSE RandomSubset(Count, S)
Fills == {<<32>>, <<9>>, <<10>>, <<13, 10>>}

\* a text cut in two at a gap; its other gaps are blanks or line ends
Gap(i, how) == IF how = 0 THEN <<32>> ELSE IF (i * how) % 5 \in {1, 2} THEN <<10>> ELSE <<32, 32>>
Cuts(t) == LET q == Split(t) IN
  {[pre |-> (IF h > 1 THEN <<10>> ELSE <<>>) \o FlattenSeq([i \in 1..k |-> q[i] \o (IF i < k THEN Gap(i, h) ELSE <<>>)]),
    post |-> FlattenSeq([i \in 1..(Len(q) - k) |-> q[k + i] \o Gap(i, h)])] : k \in 0..Len(q), h \in 0..2}
AtStart(S) == {[pre |-> p, post |-> x] : x \in S, p \in {<<>>, <<10>>}}
Fams == Split(IOEnv.FAMILIES)
CaseSet == (IF IOEnv.GAPS = "1" THEN {[c |-> x, f |-> b] : x \in Sample(UNION {Cuts(t) : t \in Bases}), b \in Fills} ELSE {})
        \cup {[c |-> x, f |-> b] : x \in UNION {Sample(AtStart(Family(StrOfBytes(Fams[i]), FALSE))) : i \in 1..Len(Fams)}, b \in Fills}

Rep(f, n) == FlattenSeq([i \in 1..n |-> f])
TextAt(c, n) == c.c.pre \o Rep(c.f, n) \o c.c.post

-----------------------------------------------------------------------------
\* out is the outcome of TextAt(c, 1); the one of TextAt(c, n + 1)
MoveByte(x, q, d) == IF x >= q THEN x + d ELSE x
\* q: zero-based line and column of the token after the gap
MovePos(p, q, lines, n, w) ==
  IF p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]) THEN p
  ELSE IF lines THEN <<p[1] + n, p[2]>>
  ELSE IF p[1] = q[1] THEN <<p[1], p[2] + n * w>> ELSE p
MoveSpan(s, q, lines, n, w) ==
  LET a == MovePos(<<s[1], s[2]>>, q, lines, n, w)
      z == MovePos(IF Len(s) = 3 THEN <<s[1], s[3]>> ELSE <<s[3], s[4]>>, q, lines, n, w)
  IN IF a[1] = z[1] THEN <<a[1], a[2], z[2]>> ELSE <<a[1], a[2], z[1], z[2]>>
Moved(c, out, n) ==
  LET w == Len(c.f)
      src == TextAt(c, 1)
      q == Len(c.c.pre) + w
      pos == LineCol(LineStarts(src), q)
      lines == c.f[w] = 10
  IN [out EXCEPT
        !.errs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.l = [j \in 1..Len(@) |-> <<MoveByte(@[j][1], q, n * w), MoveByte(@[j][2], q, n * w)>>]]],
        !.locs = [i \in 1..Len(@) |-> [@[i] EXCEPT !.span = MoveSpan(@, pos, lines, n, w)]]]

VARIABLES c, out, n
vars == <<c, out, n>>
Init == c \in CaseSet /\ out = <<>> /\ n = 0
Read == n = 0 /\ out' = Outcome(TextAt(c, 1)) /\ n' = 1 /\ UNCHANGED c
Repeat == /\ n \in 1..2
          /\ Assert(Outcome(TextAt(c, n + 1)) = Moved(c, out, n), <<"repeated blanks do not just move the rest", c, n>>)
          /\ n' = n + 1 /\ UNCHANGED <<c, out>>
Emit == n = 3 /\ n' = 4 /\ UNCHANGED <<c, out>>
        /\ PrintT(ToJson([pre |-> c.c.pre, fill |-> c.f, n |-> Far, post |-> c.c.post, out |-> Moved(c, out, Far - 1)]))
Next == Read \/ Repeat \/ Emit
Spec == Init /\ [][Next]_vars
===================================================================================
