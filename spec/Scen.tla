---------------------------------- MODULE Scen ----------------------------------
(***************************************************************************)
(* Scenario model: every text of the families named by FAMILIES (a space-  *)
(* separated list) is read by the machine of ProtoParse, one token per     *)
(* step; the outcome is printed as a test case.                            *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils, Randomization

\* SAMPLE: how many texts of each family (0: all of them)
Count == atoi(IOEnv.SAMPLE)
Sample(S) == IF Count = 0 \/ Cardinality(S) <= Count THEN S ELSE RandomSubset(Count, S)
RECURSIVE FamSet(_)
FamSet(q) == IF q = <<>> THEN {} ELSE Sample(Family(StrOfBytes(q[1]), IOEnv.BIG = "1")) \cup FamSet(Tail(q))

VARIABLES src, m, pc
vars == <<src, m, pc>>

Init == src \in FamSet(Split(IOEnv.FAMILIES)) /\ m = M0 /\ pc = "read"
ReadToken == pc = "read" /\ m.mode = "run" /\ m' = Feed(src, m) /\ UNCHANGED <<src, pc>>
Recover == pc = "read" /\ m.mode = "skip" /\ m' = Feed(src, m) /\ UNCHANGED <<src, pc>>
Finished == /\ pc = "read" /\ Over(m)
            /\ LET out == OutcomeOf(src, m) IN
               /\ Assert(OutcomeInv(src, m, out), <<"outcome invariant", src>>)
               /\ PrintT(ToJson([src |-> src, out |-> out]))
            /\ pc' = "end" /\ UNCHANGED <<src, m>>
Next == ReadToken \/ Recover \/ Finished
Spec == Init /\ [][Next]_vars
Inv == pc = "read" => MachineInv(src, m)
===================================================================================
