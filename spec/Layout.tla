--------------------------------- MODULE Layout ---------------------------------
(***************************************************************************)
(* C13: blanks, line ends and comments between tokens mean nothing.  Every *)
(* layout of every base text is read by the machine; its outcome must be   *)
(* the one of the base text up to positions and comments - a theorem about *)
(* the specification, checked here - and is printed as a test case.        *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils

BaseSeq == SetToSeq(Bases)
Plain(t) == Join(Split(t), <<32>>, 0, <<>>, 1)
BaseOut == [b \in 1..Len(BaseSeq) |-> Outcome(Plain(BaseSeq[b]))]

VARIABLES b, src, m, pc
vars == <<b, src, m, pc>>

ErrView(q) == [i \in 1..Len(q) |-> [k |-> q[i].k, x |-> q[i].x, f |-> q[i].f, n |-> Len(q[i].l)]]
LocView(q) == [i \in 1..Len(q) |-> q[i].path]
Same(x, y) == /\ x.ok = y.ok /\ x.fd = y.fd /\ ErrView(x.errs) = ErrView(y.errs) /\ LocView(x.locs) = LocView(y.locs)

QuickTrivs == All({"", "~", "/* c */", "// c~", "~ // c~~", "/* c~ * d */"}) \cup {<<9>>, <<11>>, <<12>>, <<13>>, <<13, 10>>, <<47, 47, 226, 130, 172, 13, 10>>}
Big == IOEnv.BIG = "1"
Init == /\ b \in 1..Len(BaseSeq)
        /\ src \in LayoutsOf(BaseSeq[b], IF Big THEN Trivs \cup Cats(QuickTrivs \ {<<>>}, 2) ELSE QuickTrivs)
        /\ m = M0 /\ pc = "read"
Read == pc = "read" /\ ~Over(m) /\ m' = Feed(src, m) /\ UNCHANGED <<b, src, pc>>
Finished == /\ pc = "read" /\ Over(m)
            /\ LET out == OutcomeOf(src, m) IN
               /\ Assert(OutcomeInv(src, m, out), <<"outcome invariant", src>>)
               /\ Assert(Same(out, BaseOut[b]), <<"layout changes the meaning", src>>)
               /\ PrintT(ToJson([src |-> src, base |-> b, out |-> out]))
            /\ pc' = "end" /\ UNCHANGED <<b, src, m>>
Next == Read \/ Finished
Spec == Init /\ [][Next]_vars
Inv == pc = "read" => MachineInv(src, m)
===================================================================================
