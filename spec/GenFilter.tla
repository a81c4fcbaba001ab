------------------------------ MODULE GenFilter ------------------------------
(* Every history of a given length over a given handful of keys, with what    *)
(* the filter has to hold and answer after it.  TLC enumerates them           *)
(* (breadth first, the history being part of the state) and writes one line   *)
(* per history; the driver replays each on the real filter and compares.      *)
(* W = 8, BASE = 10 etc. are those of the implementation.                     *)
EXTENDS DivaSpec, Json, IOUtils, CSV

U == TLCEval(JsonDeserialize(IOEnv.UNIVERSE))      \* I, tab, route, bulk, keys, depth, minI
Out == IOEnv.OUT
KeyNo == 1..Len(U.keys)

VARIABLE hist
gvars == <<f, bag, last, hist>>

GInit ==
    LET sent == IF U.route = 1 THEN SentinelsVariable(U.bulk) ELSE SentinelsStream(U.bulk)
    IN  /\ f = BulkLoad(U.I, U.tab, U.bulk, sent)
        /\ bag = BagOfSeq(U.bulk)
        /\ last = <<"bulk">>
        /\ hist = <<>>

GNext ==
    /\ Len(hist) < U.depth
    /\ \/ \E i \in KeyNo : InsertSimpleA(U.keys[i]) /\ hist' = Append(hist, <<1, i>>)
       \/ \E i \in KeyNo : InsertSplitA(U.keys[i]) /\ hist' = Append(hist, <<2, i>>)
       \/ \E i \in KeyNo : DeleteA(U.keys[i]) /\ hist' = Append(hist, <<3, i>>)
       \/ f.I > U.minI /\ ShrinkA(f.I - 1) /\ hist' = Append(hist, <<4, f.I - 1>>)
       \/ ReloadA /\ hist' = Append(hist, <<5, 0>>)
GSpec == GInit /\ [][GNext]_gvars

Bit(b) == IF b THEN 1 ELSE 0
Held(b) == [key |-> b.key, part |-> Bit(b.part), inv |-> IF b.part THEN b.inv ELSE 0, grade |-> b.grade, list |-> b.list]
Line == [h |-> hist,
         st |-> [i \in 1..Len(f.bd) |-> Held(f.bd[i])],
         p |-> [i \in KeyNo |-> Bit(PointQ(f, U.keys[i]))],
         r |-> [i \in KeyNo |-> [j \in KeyNo |-> IF KeyLE(U.keys[i], U.keys[j]) THEN Bit(RangeQ(f, U.keys[i], U.keys[j])) ELSE 2]],
         sz |-> SerialSize(f)]
Emit == CSVWrite("%1$s", <<ToJson(Line)>>, Out)

\* What the filter promises holds at every one of these states as well.
HereNoFalseNegative ==
    \A k \in DOMAIN bag : /\ PointQ(f, k)
                          /\ \A i, j \in KeyNo : KeyLE(U.keys[i], k) /\ KeyLE(k, U.keys[j]) => RangeQ(f, U.keys[i], U.keys[j])
GNone == {}
HereDeletable == \A k \in DOMAIN bag : CanDelete(f, k)
=============================================================================
