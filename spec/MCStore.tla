------------------------------- MODULE MCStore -------------------------------
(* A store of four cells and six slots, loaded with every ordered list of up  *)
(* to two infixes (of any length), then any inserts and deletes.              *)
EXTENDS InfixSlots
Vals == {c * P2(ISIZE) + x : c \in 0..(CELLS - 1), x \in Explicit}
MCLoads == {<<>>} \cup {<<v>> : v \in Vals} \cup {<<u, v>> : u \in Vals, v \in Vals}
Sorted(l) == \A i \in 1..(Len(l) - 1) : ~Before(l[i + 1], l[i])
MCSorted == {l \in MCLoads : Sorted(l)}
=============================================================================
