--------------------------------- MODULE Limits ---------------------------------
(***************************************************************************)
(* Long texts: up to the limit every text is read whole, beyond it none is *)
(* accepted, by whatever route it comes.  A pipe does not say how long its *)
(* content is: that shows only when there is more than the limit.  Lengths *)
(* are given as a base and an offset (the limit is the largest integer TLC *)
(* knows).                                                                 *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

Limit == 2147483647          \* 2^31 - 1 bytes
Routes == {"parse", "source", "open", "include", "root", "import", "pipe"}
Bases == {8192, 65536, 1048576, Limit}
Offs == {-1, 0, 1}

\* good: a declaration, filler, a declaration; bad: wrong from the first token that matters
Content(base) == IF base = Limit THEN "bad" ELSE "good"

VARIABLES route, base, off, read, res
vars == <<route, base, off, read, res>>
Init == /\ route \in Routes /\ base \in Bases /\ off \in Offs
        /\ read = FALSE /\ res = "running"
TooLong == base = Limit /\ off > 0
Measure == /\ res = "running" /\ ~read
           /\ IF TooLong THEN res' = "large" /\ read' = (route = "pipe") ELSE read' = TRUE /\ UNCHANGED res
           /\ UNCHANGED <<route, base, off>>
Parse == /\ res = "running" /\ read
         /\ res' = IF Content(base) = "bad" THEN "parse" ELSE "ok"
         /\ UNCHANGED <<route, base, off, read>>
Next == Measure \/ Parse
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* nothing longer than the limit is taken for a text (or even read, where its length is known), and everything else is
Inv == res # "running" => (res = "large" <=> TooLong) /\ (read = (~TooLong \/ route = "pipe"))
Emitted == res # "running" => PrintT(ToJson([route |-> route, base |-> base, off |-> off, content |-> Content(base), res |-> res]))
===================================================================================
