------------------------------ MODULE MCRefine ------------------------------
(* The model of the filter refines the contract its users rely on: every      *)
(* behaviour of DivaSpec, seen through the answers, the entries and the size, *)
(* is a behaviour of FilterContract.  The four variables below are functions  *)
(* of f; they are variables only so that TLC computes them once per state.    *)
EXTENDS MCSmall
VARIABLES pos, n, I, bytes
seen == <<pos, n, I, bytes>>
AllKeys == QKeys \cup UNION {{ks[i] : i \in 1..Len(ks)} : ks \in BulkSets}
Asked == {q \in AllKeys \X AllKeys : KeyLE(q[1], q[2])}
Answers(g) == {q \in Asked : IF q[1] = q[2] THEN PointQ(g, q[1]) ELSE RangeQ(g, q[1], q[2])}
RInit == Init /\ pos = Answers(f) /\ n = Entries(f) /\ I = f.I /\ bytes = SerialSize(f)
RNext == Next /\ pos' = Answers(f') /\ n' = Entries(f') /\ I' = f'.I /\ bytes' = SerialSize(f')
RSpec == RInit /\ [][RNext]_<<vars, seen>>
C == INSTANCE FilterContract WITH CKeys <- AllKeys, CLE <- KeyLE, CSent <- {Zero, Top}
Refines == C!CSpec
=============================================================================
