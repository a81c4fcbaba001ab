----------------------------- MODULE InfixStore -----------------------------
(* One infix store: what it holds and answers (an ordered list of infixes),   *)
(* and how a layout of bitmaps and slots is to be read as such a list.        *)
(*                                                                            *)
(* A store is a record: I infix size, T number of cells, grade, list, tab.    *)
EXTENDS Diva

SLoad(I, T, g, tab, l) == [I |-> I, T |-> T, grade |-> g, tab |-> tab, list |-> l]
SInsert(s, v) == [s EXCEPT !.grade = GrowGrade(s.tab, s.grade, Len(s.list)), !.list = ListInsert(s.list, v)]
\* A deletion takes out the longest infix that covers v.
SDelete(s, v) == [s EXCEPT !.grade = ShrinkGrade(s.tab, s.grade, Len(s.list)),
                           !.list = ListRemove(s.list, MaxOf(Matches(s.list, s.I, v)))]
SResize(s, up) == [s EXCEPT !.grade = IF up THEN s.grade + 1 ELSE s.grade - 1]
\* Shrinking the infix size by d bits drops the last d bits; an infix that loses
\* its terminator ends in one at the last bit left.
SShrink(s, J) ==
    LET d == s.I - J
        Cut(x) == LET y == x \div P2(d) IN IF LowPos(x) < d /\ y % 2 = 0 THEN y + 1 ELSE y
    IN  [s EXCEPT !.I = J, !.list = [i \in 1..Len(s.list) |-> Cut(s.list[i])]]

SPoint(s, x) == Matches(s.list, s.I, x) # {}
\* Does a stored interval meet l..r?  An interval lies within one cell.
SRange(s, l, r) ==
    \E i \in OfCells(s.list, s.I, l \div P2(s.I), r \div P2(s.I)) : Lo(s.list[i]) <= r /\ l <= Hi(s.list[i])
SLongest(s, x) ==
    LET M == Matches(s.list, s.I, x) IN IF M = {} THEN 0 ELSE s.I - LowPos(s.list[MaxOf(M)])

-----------------------------------------------------------------------------
(* A layout: occ, the occupied cells in order; re, the run ends in order;     *)
(* pos and val, the slots in use in order and what they hold; pc0 and pc1,    *)
(* how many of occ and of re lie below half.  Run k of the layout, which      *)
(* holds the infixes of cell occ[k], is the gapless stretch of used slots     *)
(* that ends at re[k] and begins behind re[k-1].                              *)

RECURSIVE RunsFrom(_, _, _, _)
RunsFrom(L, I, k, p) ==         \* the list of runs k.. when slots p.. are left; <<-1>> at the end if malformed
    IF k > Len(L.re) THEN (IF p > Len(L.pos) THEN <<>> ELSE <<-1>>)
    ELSE LET q == CHOOSE q \in p..(Len(L.pos) + 1) :
                      /\ \A i \in p..(q - 1) : L.pos[i] <= L.re[k]
                      /\ q <= Len(L.pos) => L.pos[q] > L.re[k]
         IN  IF q = p \/ L.pos[q - 1] # L.re[k] \/ L.pos[q - 1] - L.pos[p] # q - 1 - p THEN <<-1>>
             ELSE [i \in 1..(q - p) |-> L.occ[k] * P2(I) + L.val[p + i - 1]] \o RunsFrom(L, I, k + 1, q)

Below(s, half) == Cardinality({i \in 1..Len(s) : s[i] < half})
LayoutHolds(L, I, half, list) ==
    /\ Len(L.occ) = Len(L.re)
    /\ Len(L.pos) = Len(list)
    /\ RunsFrom(L, I, 1, 1) = list
    /\ L.pc0 = Below(L.occ, half)
    /\ L.pc1 = Below(L.re, half)
=============================================================================
