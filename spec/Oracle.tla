-------------------------------- MODULE Oracle --------------------------------
(***************************************************************************)
(* Trace validation of the parser: every line of the file named by CASES   *)
(* is a source text that was given to the implementation.  The machine of  *)
(* ProtoParse reads it token by token; the outcome it reaches is printed   *)
(* and compared with the recorded one.  Invariants of the specification    *)
(* are evaluated in every state on the way.                                *)
(***************************************************************************)
EXTENDS ProtoInv, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES i, m, pc
vars == <<i, m, pc>>

Src == Cases[i].src

Init == i \in 1..Len(Cases) /\ m = M0 /\ pc = "read"

ReadToken == /\ pc = "read" /\ m.mode = "run"
             /\ m' = Feed(Src, m)
             /\ UNCHANGED <<i, pc>>
Recover == /\ pc = "read" /\ m.mode = "skip"
           /\ m' = Feed(Src, m)
           /\ UNCHANGED <<i, pc>>
Finished == /\ pc = "read" /\ Over(m)
            /\ LET out == OutcomeOf(Src, m) IN
               /\ Assert(OutcomeInv(Src, m, out), <<"outcome invariant", i>>)
               /\ PrintT(ToJson([id |-> Cases[i].id, out |-> out]))
            /\ pc' = "end" /\ UNCHANGED <<i, m>>

Next == ReadToken \/ Recover \/ Finished
Spec == Init /\ [][Next]_vars

Inv == pc = "read" => MachineInv(Src, m)
===============================================================================
