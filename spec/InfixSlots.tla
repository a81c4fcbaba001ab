----------------------------- MODULE InfixSlots -----------------------------
(* The slot algorithm of an infix store of fixed size: infixes of one cell    *)
(* form a run of neighbouring slots in order; runs stand in the order of      *)
(* their cells, as near to the mapped position of the cell as the load allows;*)
(* occupied bits mark cells with a run, run-end bits the last slot of a run.  *)
(* Insertion shifts what is in the way to the next empty slot on the right,   *)
(* or, if there is none, on the left; deletion moves shifted runs back.       *)
(* The model checks that each layout reached holds the list of InfixStore,    *)
(* that both half counts stay right, and that lookups made on the layout      *)
(* answer what the list says.                                                 *)
EXTENDS InfixStore

CONSTANTS CELLS,                \* number of cells
          SLOTS,                \* number of slots
          ISIZE,                \* infix size
          HALFC, HALFS,         \* where the half counts of cells and slots end
          Loads                 \* the lists to start from

VARIABLES occ, re, slot, c0, c1, list
vars == <<occ, re, slot, c0, c1, list>>

None == -1
Home(c) == (c * SLOTS) \div CELLS
Explicit == 1..(P2(ISIZE) - 1)
Used(i) == slot[i] # 0

SetMax(S) == IF S = {} THEN -1 ELSE MaxOf(S)
SetMin(S, d) == IF S = {} THEN d ELSE MinOf(S)
EmptyAfter(i) == SetMin({j \in i..(SLOTS - 1) : slot[j] = 0}, SLOTS)
EmptyBefore(i) == SetMax({j \in 0..i : slot[j] = 0})
Rank(c) == Cardinality({d \in occ : d < c})
\* The k-th run end, counted from 0.
RECURSIVE Select(_, _)
Select(S, k) == IF k = 0 THEN MinOf(S) ELSE Select(S \ {MinOf(S)}, k - 1)
RunEnd(c) == Select(re, Rank(c))
PrevEnd(i) == SetMax({j \in re : j < i})
RunStart(c) == MaxI(IF Rank(c) = 0 THEN -1 ELSE Select(re, Rank(c) - 1), EmptyBefore(RunEnd(c))) + 1

\* Moving the contents of slots a..b-1 by one; the slot given up is filled with x.
ShiftRight(f, a, b, x) == [i \in 0..(SLOTS - 1) |-> IF i > a /\ i <= b THEN f[i - 1] ELSE IF i = a THEN x ELSE f[i]]
ShiftLeft(f, a, b, x) == [i \in 0..(SLOTS - 1) |-> IF i >= a - 1 /\ i < b - 1 THEN f[i + 1] ELSE IF i = b - 1 THEN x ELSE f[i]]
EndsRight(S, a, b) == {i \in S : i < a \/ i > b} \cup {i + 1 : i \in {j \in S : a <= j /\ j < b}}
EndsLeft(S, a, b) == {i \in S : i < a - 1 \/ i >= b} \cup {i - 1 : i \in {j \in S : a <= j /\ j < b}}

Counts(o, r) == c0' = Cardinality({c \in o : c < HALFC}) /\ c1' = c1 + (Cardinality({i \in r : i < HALFS}) - Cardinality({i \in re : i < HALFS}))

PutIn(c, x) ==
    /\ Len(list) < SLOTS
    /\ LET h == Home(c)
           right == EmptyAfter(h)
           left  == EmptyBefore(h)
           \* where x goes within the run of c: behind the last infix not after it
           p == IF c \in occ
                THEN SetMin({i \in RunStart(c)..RunEnd(c) : Before(x, slot[i])}, RunEnd(c) + 1)
                ELSE MaxI((IF Rank(c) = 0 THEN -1 ELSE Select(re, Rank(c) - 1)) + 1, h)
           q == IF c \in occ THEN p - 1
                ELSE MaxI(IF Rank(c) = 0 THEN -1 ELSE Select(re, Rank(c) - 1), left)
       IN  /\ IF c \notin occ /\ ~Used(h)
              THEN slot' = [slot EXCEPT ![h] = x] /\ re' = re \cup {h}
              ELSE IF right < SLOTS
              THEN /\ slot' = ShiftRight(slot, p, right, x)
                   /\ re' = IF c \in occ THEN EndsRight(re, RunEnd(c), right) ELSE EndsRight(re, p, right) \cup {p}
              ELSE /\ slot' = ShiftLeft(slot, left + 1, q + 1, x)
                   /\ re' = IF c \in occ THEN EndsLeft(re, left + 1, MinI(RunEnd(c), q + 1)) ELSE EndsLeft(re, left + 1, q + 1) \cup {q}
           /\ occ' = occ \cup {c}
           /\ Counts(occ', re')
           /\ list' = ListInsert(list, c * P2(ISIZE) + x)

\* The cluster of slots in use around the run of c, as cells in order.
TakeOut(c, x) ==
    /\ c \in occ
    /\ LET b == RunStart(c)
           e == RunEnd(c)
           M == {i \in b..e : Covers(slot[i], x)}
           m == MaxOf(M)
           gone == b = e
           \* runs behind that of c in the same cluster
           behind == {d \in occ : d > c /\ \A i \in e..RunEnd(d) : Used(i)}
           \* the first of them that stands at its home limits the shift to the left
           fixed == {d \in behind : Home(d) >= RunStart(d)}
           stop == IF fixed = {} THEN SetMax({e} \cup {RunEnd(d) : d \in behind}) ELSE MinOf({RunStart(d) : d \in fixed}) - 1
           openRight == EmptyAfter(e) < SLOTS
           \* runs up to c in the same cluster that stand left of their home
           before == {d \in occ : d <= c /\ \A i \in RunStart(d)..e : Used(i)}
           pulled == {d \in before : Home(d) > RunStart(d)}
           start == IF openRight \/ pulled = {} THEN None ELSE MinOf({RunStart(d) : d \in pulled})
       IN  /\ M # {}
           /\ IF start = None
              THEN /\ slot' = ShiftLeft(slot, m + 1, stop + 1, 0)
                   /\ re' = LET r == EndsLeft(re \ (IF gone THEN {e} ELSE {}), m + 1, stop + 1)
                            IN IF gone THEN r ELSE (r \ {e}) \cup {e - 1} \cup {i \in r : i = e /\ (e + 1) \in re}
              ELSE /\ slot' = ShiftRight(slot, start, m, 0)
                   /\ re' = LET r == EndsRight(re \ {e}, start, m)
                            IN IF gone THEN r ELSE r \cup {e}
           /\ occ' = IF gone THEN occ \ {c} ELSE occ
           /\ Counts(occ', re')
           /\ list' = ListRemove(list, MaxOf(Matches(list, ISIZE, c * P2(ISIZE) + x)))

\* Loading places each run at its home, or behind the run before it, and pushes
\* what would not fit at the end back to the left.
Loaded(l) ==
    LET n == Len(l)
        cellOf(i) == l[i] \div P2(ISIZE)
        \* leftmost placement, then limited from the right
        fwd == [i \in 1..n |-> MaxOf({Home(cellOf(j)) + (i - j) : j \in {k \in 1..i : k = 1 \/ cellOf(k) # cellOf(k - 1)}})]
        pos == [i \in 1..n |-> MinI(fwd[i], SLOTS - 1 - (n - i))]
    IN  [occ |-> {cellOf(i) : i \in 1..n},
         re |-> {pos[i] : i \in {k \in 1..n : k = n \/ cellOf(k) # cellOf(k + 1)}},
         slot |-> [j \in 0..(SLOTS - 1) |-> LET S == {i \in 1..n : pos[i] = j} IN IF S = {} THEN 0 ELSE l[MinOf(S)] % P2(ISIZE)]]

Init == \E l \in Loads :
    LET L == Loaded(l) IN
    /\ occ = L.occ /\ re = L.re /\ slot = L.slot /\ list = l
    /\ c0 = Cardinality({c \in L.occ : c < HALFC}) /\ c1 = Cardinality({i \in L.re : i < HALFS})
Next == \E c \in 0..(CELLS - 1) : \E x \in {y \in Explicit : y % 2 = 1} : PutIn(c, x) \/ TakeOut(c, x)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Asc(S) == SetToSortSeq(S, <)
Layout == [occ |-> Asc(occ), re |-> Asc(re),
           pos |-> Asc({i \in 0..(SLOTS - 1) : Used(i)}),
           val |-> [k \in 1..Cardinality({i \in 0..(SLOTS - 1) : Used(i)}) |-> slot[Asc({i \in 0..(SLOTS - 1) : Used(i)})[k]]],
           pc0 |-> Cardinality({c \in occ : c < HALFC}), pc1 |-> Cardinality({i \in re : i < HALFS})]

TheStore == [I |-> ISIZE, T |-> CELLS, grade |-> 0, tab |-> 0, list |-> list]
\* The layout reads back as exactly the list.
HoldsList == LayoutHolds(Layout, ISIZE, HALFC, list)  \/ (HALFC # HALFS /\ Len(Layout.occ) = Len(Layout.re) /\ RunsFrom(Layout, ISIZE, 1, 1) = list)
CountsRight == c0 = Layout.pc0 /\ c1 = Layout.pc1
\* A run is right of its home only if everything between is in use, and left of
\* it only if there is no empty slot to its right: lookups start from the home.
Placed == \A c \in occ :
    LET b == RunStart(c) IN
    /\ b > Home(c) => \A i \in Home(c)..b : Used(i)
    /\ b < Home(c) => \A i \in b..(SLOTS - 1) : Used(i)
\* Lookups on the layout.
LPoint(c, x) == c \in occ /\ \E i \in RunStart(c)..RunEnd(c) : Covers(slot[i], x)
LooksRight == \A c \in 0..(CELLS - 1) : \A x \in 0..(P2(ISIZE) - 1) : LPoint(c, x) <=> SPoint(TheStore, c * P2(ISIZE) + x)
=============================================================================
