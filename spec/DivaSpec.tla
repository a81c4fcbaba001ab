------------------------------ MODULE DivaSpec ------------------------------
(* The filter as a state machine.  bag is the multiset of keys a user has in  *)
(* the filter; it is what the answers are judged by.                          *)
EXTENDS Diva

CONSTANTS Keys,                 \* keys that may be inserted and queried
          InfixSizes,           \* infix sizes to start with
          Tab,                  \* store size table
          BulkSets,             \* sequences of keys to bulk load (may be empty set)
          Zero, Top,            \* sentinel boundary keys
          MaxLive               \* bound on the number of keys in the filter

VARIABLES f, bag, last
vars == <<f, bag, last>>

Count(B, k) == IF k \in DOMAIN B THEN B[k] ELSE 0
BagAdd(B, k) == (k :> Count(B, k) + 1) @@ B
BagDel(B, k) == IF Count(B, k) > 1 THEN [B EXCEPT ![k] = @ - 1]
                ELSE [x \in DOMAIN B \ {k} |-> B[x]]
BagSize(B) == LET RECURSIVE S(_) S(D) == IF D = {} THEN 0
                                         ELSE LET x == CHOOSE x \in D : TRUE IN B[x] + S(D \ {x})
              IN  S(DOMAIN B)
Present(B, k) == k \in DOMAIN B
BagOfSeq(ks) == [k \in {ks[i] : i \in 1..Len(ks)} |-> Cardinality({i \in 1..Len(ks) : ks[i] = k})]

NoKeys == [x \in {} |-> 0]

Init ==
    \E I \in InfixSizes :
        \/ /\ f = AddBoundary(AddBoundary(Empty(I, Tab), Zero), Top)
           /\ bag = NoKeys
           /\ last = <<"new", I>>
        \/ \E ks \in BulkSets :
           /\ f = BulkLoad(I, Tab, ks, <<Zero, Top>>)
           /\ bag = BagOfSeq(ks)
           /\ last = <<"bulk", I, ks>>

InsertSimpleA(k) ==
    /\ f' = InsertSimple(Noted(f, k), k)
    /\ bag' = BagAdd(bag, k)
    /\ last' = <<"simple", k>>

InsertSplitA(k) ==
    /\ f' = InsertSplit(Noted(f, k), k)
    /\ bag' = BagAdd(bag, k)
    /\ last' = <<"split", k>>

Insert(k) == InsertSimpleA(k) \/ InsertSplitA(k)

DeleteA(k) ==
    /\ Present(bag, k)
    /\ f' = Delete(f, k)
    /\ bag' = BagDel(bag, k)
    /\ last' = <<"delete", k>>

ShrinkA(J) ==
    /\ J < f.I
    /\ J > 0
    /\ f' = Shrink(f, J)
    /\ UNCHANGED bag
    /\ last' = <<"shrink", J>>

ReloadA ==
    /\ f.minlen # 0
    /\ f' = Reload(f)
    /\ UNCHANGED bag
    /\ last' = <<"reload">>

Next ==
    \/ \E k \in Keys : BagSize(bag) < MaxLive /\ Insert(k)
    \/ \E k \in Keys : DeleteA(k)
    \/ f.I > 2 /\ ShrinkA(f.I - 1)
    \/ ReloadA

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)

\* C01: a key in the filter is found.
NoFalseNegativePoint == \A k \in DOMAIN bag : PointQ(f, k)

\* C02: a range holding a key is found; end points range over Keys and sentinels.
QKeys == Keys \cup {Zero, Top}
NoFalseNegativeRange ==
    \A k \in DOMAIN bag : \A l \in QKeys : KeyLE(l, k) =>
        \A r \in QKeys : KeyLE(k, r) => RangeQ(f, l, r)

\* C03: a present key can be deleted, and exactly one entry goes.
DeleteIsMeaningful == \A k \in DOMAIN bag : CanDelete(f, k)
OneEntryPerDelete ==
    [][last'[1] = "delete" /\ last'[2] \notin {Zero, Top}
         => Entries(f') = Entries(f) - 1]_vars

\* C05: shrinking keeps every positive answer and the number of entries.
ShrinkKeepsPositives ==
    [][last'[1] = "shrink" =>
         /\ Entries(f') = Entries(f)
         /\ SerialSize(f') <= SerialSize(f)
         /\ \A k \in QKeys : PointQ(f, k) => PointQ(f', k)
         /\ \A l, r \in QKeys : KeyLE(l, r) /\ RangeQ(f, l, r) => RangeQ(f', l, r)]_vars

\* C06: a reloaded filter answers alike.
ReloadKeepsAnswers ==
    [][last'[1] = "reload" =>
         /\ \A k \in QKeys : PointQ(f, k) = PointQ(f', k)
         /\ \A l, r \in QKeys : KeyLE(l, r) => RangeQ(f, l, r) = RangeQ(f', l, r)
         /\ SerialSize(f) = SerialSize(f')]_vars

\* C07: what is stored is no more than the keys explain: every infix denotes a
\* prefix that meets its interval, cells are in range, and a point answer never
\* exceeds the range answer for the same key.
Sorted(s) == \A i \in 1..(Len(s) - 1) : ~Before(s[i + 1], s[i])
WellFormed ==
    /\ \A i \in 1..(Len(f.bd) - 1) : KeyLT(f.bd[i].key, f.bd[i + 1].key)
    /\ \A i \in 1..(Len(f.bd) - 1) :
        LET g == Geo(f.bd[i].key, f.bd[i + 1].key)
            s == f.bd[i].list
        IN  /\ Sorted(s)
            /\ \A j \in 1..Len(s) : s[j] > 0 /\ s[j] % P2(f.I) # 0 /\ s[j] \div P2(f.I) <= g.b0 - g.a0
            /\ g.b0 - g.a0 + 1 >= TARGET \div 2 /\ g.b0 - g.a0 + 1 <= TARGET
    /\ f.bd[Len(f.bd)].list = <<>>
\* The lookups by cell are the plain ones.
LookupsPlain ==
    \A i \in 1..(Len(f.bd) - 1) : \A k \in QKeys :
        LET g == Geo(f.bd[i].key, f.bd[i + 1].key)
        IN  KeyLT(f.bd[i].key, k) /\ KeyLT(k, f.bd[i + 1].key) =>
            /\ Matches(f.bd[i].list, f.I, Val(g, f.I, k)) = AllMatches(f.bd[i].list, Val(g, f.I, k))
            /\ \A r \in QKeys : KeyLT(k, r) /\ KeyLT(r, f.bd[i + 1].key) =>
                Meets(f.bd[i].list, f.I, InfixOf(g, f.I, k), InfixOf(g, f.I, r))
                = AllMeets(f.bd[i].list, InfixOf(g, f.I, k), InfixOf(g, f.I, r))
PointWithinRange == \A k \in QKeys : PointQ(f, k) => RangeQ(f, k, k)

\* C14: every store has room for its infixes.
RoomForAll == \A i \in 1..Len(f.bd) : Len(f.bd[i].list) <= SizeOfGrade(f.tab, f.bd[i].grade)
=============================================================================
