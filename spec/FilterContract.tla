--------------------------- MODULE FilterContract ---------------------------
(* What a user of the filter sees, without saying how it is done: the keys    *)
(* that are in it (bag), the queries it answers positively (pos), how many    *)
(* entries it holds (n), its infix size (I) and its size in bytes (bytes).    *)
(* DivaSpec is checked to refine this module (MCRefine), and the traces of    *)
(* the real filter are checked against the conditions defined here            *)
(* (TraceContract).                                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS CKeys,                \* keys, ...
          CLE(_, _),            \* ... their order, ...
          CSent                 \* ... and the reserved smallest and largest key

VARIABLES bag, pos, n, I, bytes
cvars == <<bag, pos, n, I, bytes>>

Count(B, k) == IF k \in DOMAIN B THEN B[k] ELSE 0
BagAdd(B, k) == (k :> Count(B, k) + 1) @@ B
BagDel(B, k) == IF Count(B, k) > 1 THEN [B EXCEPT ![k] = @ - 1]
                ELSE [x \in DOMAIN B \ {k} |-> B[x]]

(* The conditions on single observations. *)

\* C01: the answer for key k may be negative only if k is absent.
PointAllowed(B, k, answer) == k \in DOMAIN B => answer
\* C02: the answer for [l,r] may be negative only if no key lies in it.
RangeAllowed(B, l, r, answer) == (\E k \in DOMAIN B : CLE(l, k) /\ CLE(k, r)) => answer
\* C03: entries before and after a deletion.
DeleteCounts(sent, k, before, after) == after = before - 1 \/ (k \in sent /\ after = before)
\* C05
ShrinkAllowed(n0, n1, b0, b1) == n1 = n0 /\ b1 <= b0
KeptPositive(a0, a1) == a0 => a1

(* The transition system; pos is a set of pairs <<l, r>> with l not above r,  *)
(* the point query for k being <<k, k>>.                                      *)
Queries == {q \in CKeys \X CKeys : CLE(q[1], q[2])}
Sound(B, P) == \A q \in Queries : RangeAllowed(B, q[1], q[2], q \in P)

CInit == /\ \E S \in SUBSET CKeys : bag = [k \in S |-> 1]
         /\ Sound(bag, pos)
         /\ n >= Cardinality(DOMAIN bag)

CInsert(k) ==
    /\ bag' = BagAdd(bag, k)
    /\ I' = I
    /\ n' >= n
    /\ Sound(bag', pos')

CDelete(k) ==
    /\ k \in DOMAIN bag
    /\ bag' = BagDel(bag, k)
    /\ I' = I
    /\ DeleteCounts(CSent, k, n, n')
    /\ Sound(bag', pos')

CShrink ==
    /\ I' < I
    /\ bag' = bag
    /\ ShrinkAllowed(n, n', bytes, bytes')
    /\ \A q \in Queries : KeptPositive(q \in pos, q \in pos')

CReload == UNCHANGED cvars

CNext == (\E k \in CKeys : CInsert(k) \/ CDelete(k)) \/ CShrink \/ CReload
CSpec == CInit /\ [][CNext]_cvars
=============================================================================
