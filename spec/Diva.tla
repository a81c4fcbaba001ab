-------------------------------- MODULE Diva --------------------------------
(* The filter as a value and its operations as functions of that value.       *)
(*                                                                            *)
(* A filter is a sorted sequence of boundary keys.  Between two neighbouring  *)
(* boundary keys a < b the remaining keys are represented by infixes.  The    *)
(* position of a key in the interval [a,b] is measured in cells: skip the     *)
(* bits all keys of the interval share, skip the bits that are then implied   *)
(* (0 followed by ones like a, 1 followed by zeros like b), and read BASE or  *)
(* BASE+1 bits.  An infix is a cell number relative to a's cell together with *)
(* up to I-1 further bits and a terminating 1 bit:                            *)
(*       v = cell * 2^I + (explicit bits ++ <<1>> ++ zeros)                   *)
(* so every v denotes one prefix of the key space, all keys below which are   *)
(* represented by v.  A boundary key may be partial: then it denotes a prefix *)
(* itself (all but `inv` bits of its bytes).                                  *)
EXTENDS DivaBits, SequencesExt

CONSTANTS BASE,                 \* bits of a cell number; 2^BASE keys per store
          WORD,                 \* bits of a machine word
          MAXEXP                \* how many entries a split may add

TARGET == P2(BASE)

(* Store sizes: the table tab of a filter is a record with                    *)
(*   sizes : sequence of slot counts by grade (grade g at index g+1)          *)
(*   exc   : the growth threshold for grade 0                                 *)
(*   num   : the numerator by which a list length is scaled, over 2^shift     *)
(*   sep   : the grade of a nominal store                                     *)
SizeOfGrade(tab, g) == tab.sizes[g + 1]

RECURSIVE FirstGrade(_, _, _)
FirstGrade(tab, n, g) == IF g + 1 >= Len(tab.sizes) \/ SizeOfGrade(tab, g) >= n THEN g ELSE FirstGrade(tab, n, g + 1)
\* The grade a store gets when it is built from a list of n infixes.
AllocGrade(tab, n) == FirstGrade(tab, (tab.num * n) \div P2(tab.shift), 0)
\* The grade of the store of the last chunk of a bulk load.
TailGrade(tab, n) == FirstGrade(tab, n, 0)
\* Grade changes made just before adding to / removing from n infixes.
GrowGrade(tab, g, n) ==
    IF n >= (IF g > 0 THEN SizeOfGrade(tab, g - 1) ELSE tab.exc) THEN g + 1 ELSE g
ShrinkGrade(tab, g, n) ==
    IF g > 0 /\ n <= (IF g > 1 THEN SizeOfGrade(tab, g - 2) ELSE tab.exc) THEN g - 1 ELSE g

-----------------------------------------------------------------------------
(* Geometry of the interval between two boundary keys. *)

RECURSIVE IgnoreFrom(_, _, _)
IgnoreFrom(a, b, p) ==          \* positions from p on with a = 1 and b = 0
    IF BitAt(a, p) = 1 /\ BitAt(b, p) = 0 THEN 1 + IgnoreFrom(a, b, p + 1) ELSE 0

Geo(a, b) ==
    LET sh == FirstBitDiff(a, b)
        ig == IgnoreFrom(a, b, sh + 1)
        i1 == BitsAt(a, sh + ig + 1, BASE - 1)
        i2 == P2(BASE - 1) + BitsAt(b, sh + ig + 1, BASE - 1)
        im == BASE + (IF 2 * (i2 - i1 + 1) < P2(BASE) THEN 1 ELSE 0)
    IN  [sh |-> sh, ig |-> ig, im |-> im,
         B  |-> sh + ig + im,                                   \* first explicit bit
         a0 |-> BitsAt(a, sh + ig + 1, im - 1),                 \* cell of a
         b0 |-> P2(im - 1) + BitsAt(b, sh + ig + 1, im - 1)]    \* cell of b

\* Absolute cell of a key of the interval.
Cell(g, k) == BitAt(k, g.sh) * P2(g.im - 1) + BitsAt(k, g.sh + g.ig + 1, g.im - 1)

\* The value of k in a store of geometry g: its cell and its next I bits.
Val(g, I, k) == (Cell(g, k) - g.a0) * P2(I) + BitsAt(k, g.B, I)
\* The infix k is represented by: the last bit is the terminator.
InfixOf(g, I, k) == LET v == Val(g, I, k) IN IF v % 2 = 0 THEN v + 1 ELSE v

(* The interval of an infix in units of the last explicit bit, as the queries *)
(* see it, and the order in which a store keeps its infixes.                  *)
Lo(v) == v - LowBit(v)
Hi(v) == v + LowBit(v) - 1
Before(u, v) == Lo(u) < Lo(v) \/ (Lo(u) = Lo(v) /\ LowBit(u) > LowBit(v))

\* v covers the value x (same cell, same explicit bits up to its terminator).
Covers(v, x) == Lo(v) <= x /\ x <= Hi(v)

RECURSIVE InsPos(_, _, _, _)
InsPos(s, v, l, r) ==           \* first position in l..r whose infix comes after v
    IF l = r THEN l
    ELSE LET m == (l + r) \div 2
         IN  IF Before(v, s[m]) THEN InsPos(s, v, l, m) ELSE InsPos(s, v, m + 1, r)
ListInsert(s, v) ==
    LET p == InsPos(s, v, 1, Len(s) + 1)
    IN  SubSeq(s, 1, p - 1) \o <<v>> \o SubSeq(s, p, Len(s))
ListRemove(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
ListSort(s) == SortSeq(s, LAMBDA u, v : Before(u, v))

\* Lists are sorted, so the infixes of the cells c..d stand next to each other.
RECURSIVE FirstFrom(_, _, _, _)
FirstFrom(s, x, l, r) ==        \* first position in l..r whose value is x or more
    IF l = r THEN l
    ELSE LET m == (l + r) \div 2
         IN  IF s[m] >= x THEN FirstFrom(s, x, l, m) ELSE FirstFrom(s, x, m + 1, r)
OfCells(s, I, c, d) ==          \* positions of the infixes of cells c..d
    FirstFrom(s, c * P2(I), 1, Len(s) + 1) .. (FirstFrom(s, (d + 1) * P2(I), 1, Len(s) + 1) - 1)

\* Positions of the infixes covering x: the shortest is the first, the longest the last.
Matches(s, I, x) == LET c == x \div P2(I) IN {i \in OfCells(s, I, c, c) : Covers(s[i], x)}
AllMatches(s, x) == {i \in 1..Len(s) : Covers(s[i], x)}

-----------------------------------------------------------------------------
(* Infixes as absolute prefixes: the bits from position `from` up to the      *)
(* terminator; bits before `from` are those of the boundary keys.             *)

AbsLen(g, I, v) == g.B + I - 1 - LowPos(v)      \* length of the prefix v denotes

AbsPrefix(g, I, v) ==
    LET c   == (v \div P2(I)) + g.a0
        msb == c \div P2(g.im - 1)
    IN  [from |-> g.sh,
         bits |-> <<msb>> \o [i \in 1..g.ig |-> 1 - msb]
                          \o IntBits(c % P2(g.im - 1), g.im - 1)
                          \o SubSeq(IntBits(v % P2(I), I), 1, I - 1 - LowPos(v))]

PLen(p) == p.from + Len(p.bits)
\* Bit q of prefix p, extended with bits z; ref supplies the bits all keys share.
PBit(p, ref, q, z) == IF q < p.from THEN BitAt(ref, q)
                      ELSE IF q < PLen(p) THEN p.bits[q - p.from + 1] ELSE z

\* Cell, in geometry g, of prefix p extended with bits z.
PCell(g, p, ref, z) ==
    PBit(p, ref, g.sh, z) * P2(g.im - 1)
    + SeqInt([i \in 1..(g.im - 1) |-> PBit(p, ref, g.sh + g.ig + i, z)], 1, g.im - 1)

\* The first n bits of p extended with z, compared with those of key k: -1, 0, 1.
RECURSIVE PCmp(_, _, _, _, _, _)
PCmp(p, ref, z, k, q, n) ==
    IF q >= n THEN 0
    ELSE LET x == PBit(p, ref, q, z)
             y == BitAt(k, q)
         IN  IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE PCmp(p, ref, z, k, q + 1, n)

\* The infix for prefix p (at least g.B bits long; cut to the room there is).
ToInfix(g, I, p, ref) ==
    LET e == MinI(PLen(p) - g.B, I - 1)
        x == SeqInt([i \in 1..e |-> PBit(p, ref, g.B + i - 1, 0)], 1, e)
    IN  (PCell(g, p, ref, 0) - g.a0) * P2(I) + (2 * x + 1) * P2(I - 1 - e)

\* The infixes for prefix p between boundary keys a and b: one if p reaches the
\* explicit bits, otherwise one empty infix in every cell p meets.
Refit(g, I, a, b, p) ==
    IF PLen(p) >= g.B THEN <<ToInfix(g, I, p, a)>>
    ELSE LET lo == IF PCmp(p, a, 0, a, p.from, g.B) <= 0 THEN g.a0 ELSE PCell(g, p, a, 0)
             hi == IF PCmp(p, a, 1, b, p.from, g.B) >= 0 THEN g.b0 ELSE PCell(g, p, a, 1)
         IN  [i \in 1..(hi - lo + 1) |-> (lo + i - 1 - g.a0) * P2(I) + P2(I - 1)]
RefitCount(g, a, b, p) ==
    IF PLen(p) >= g.B THEN 1
    ELSE LET lo == IF PCmp(p, a, 0, a, p.from, g.B) <= 0 THEN g.a0 ELSE PCell(g, p, a, 0)
             hi == IF PCmp(p, a, 1, b, p.from, g.B) >= 0 THEN g.b0 ELSE PCell(g, p, a, 1)
         IN  hi - lo + 1

SumSeq(s) == FoldLeft(LAMBDA x, y : x + y, 0, s)

\* The list of a store over [a,b] made from a list of prefixes.
RefitAll(g, I, a, b, ps) ==
    LET rs == TLCEval([i \in 1..Len(ps) |-> Refit(g, I, a, b, ps[i])])
    IN  IF \A i \in 1..Len(rs) : Len(rs[i]) = 1 /\ PLen(ps[i]) >= g.B
        THEN [i \in 1..Len(rs) |-> rs[i][1]]
        ELSE ListSort(FlattenSeq(rs))

-----------------------------------------------------------------------------
(* Filters.  f = [I |-> infix size, minlen |-> length of the shortest key     *)
(* ever added, tab |-> store size table, bd |-> sequence of boundaries], each *)
(* boundary [key, part, inv, grade, list].                                    *)

Store(key, grade, list) == [key |-> key, part |-> FALSE, inv |-> 0, grade |-> grade, list |-> list]

\* Position of the first boundary key not below k; Len+1 if there is none.
RECURSIVE SeekIn(_, _, _, _)
SeekIn(bd, k, l, r) ==
    IF l = r THEN l
    ELSE LET m == (l + r) \div 2
         IN  IF KeyLE(k, bd[m].key) THEN SeekIn(bd, k, l, m) ELSE SeekIn(bd, k, m + 1, r)
Seek(bd, k) == SeekIn(bd, k, 1, Len(bd) + 1)

\* The boundary whose store is responsible for k (the last one not above k).
HomeOf(f, k) == LET i == Seek(f.bd, k)
                IN  IF i <= Len(f.bd) /\ f.bd[i].key = k THEN i ELSE i - 1

\* A partial boundary key denotes the prefix of k: same leading bytes, up to inv bits.
PrefixHit(b, k) ==
    /\ b.part
    /\ Len(b.key) <= Len(k)
    /\ \A i \in 1..(Len(b.key) - 1) : b.key[i] = k[i]
    /\ LET n == Len(b.key) IN b.key[n] \div P2(b.inv) = k[n] \div P2(b.inv)

AddBoundary(f, k) ==            \* a new boundary with an empty store; nothing if present
    LET i == Seek(f.bd, k)
    IN  IF i <= Len(f.bd) /\ f.bd[i].key = k THEN f
        ELSE [f EXCEPT !.bd = SubSeq(f.bd, 1, i - 1) \o <<Store(k, f.tab.sep, <<>>)>>
                              \o SubSeq(f.bd, i, Len(f.bd))]

Noted(f, k) == [f EXCEPT !.minlen = MinI(@, Len(k))]

StoreAdd(f, b, v) ==            \* boundary b with one more infix
    [b EXCEPT !.grade = GrowGrade(f.tab, b.grade, Len(b.list)), !.list = ListInsert(@, v)]

InsertSimple(f, k) ==
    LET i == HomeOf(f, k)
    IN  IF i = Len(f.bd) THEN f                 \* the last boundary key itself
        ELSE LET g == Geo(f.bd[i].key, f.bd[i + 1].key)
             IN  [f EXCEPT !.bd[i] = StoreAdd(f, f.bd[i], InfixOf(g, f.I, k))]

(* Splitting the store of k: k, cut to the shortest infix that covers it, if  *)
(* any, becomes a boundary key.  SplitPlan says what the split would do.      *)
SplitPlan(f, k) ==
    LET i   == HomeOf(f, k)
        b   == f.bd[i]
        nx  == f.bd[i + 1].key
        g   == Geo(b.key, nx)
        x   == InfixOf(g, f.I, k)
        ms  == Matches(b.list, f.I, x)
        cut == ms # {}
        pos == IF cut THEN MinOf(ms) ELSE InsPos(b.list, x, 1, Len(b.list) + 1)
        L   == IF cut THEN AbsLen(g, f.I, b.list[pos]) ELSE 0
        n   == IF cut /\ Len(k) > (L - 1) \div W THEN ((L - 1) \div W) + 1 ELSE Len(k)
        u   == IF cut THEN W - 1 - ((L - 1) % W) ELSE 0         \* unused bits of the last byte
        m   == IF cut /\ Len(k) > (L - 1) \div W
               THEN [j \in 1..n |-> IF j = n THEN (k[n] \div P2(u)) * P2(u) ELSE k[j]]
               ELSE k
    IN  [i |-> i, g |-> g, pos |-> pos, cut |-> cut, L |-> L, inv |-> u, m |-> m, x |-> x]

\* A split is not made when the new boundary could not be told from existing
\* keys or boundaries, or would be too costly; then k is added as an infix.
InsertSplit(f, k) ==
    LET i0 == HomeOf(f, k)
    IN
    IF i0 = Len(f.bd) THEN f
    ELSE IF PrefixHit(f.bd[i0], k) THEN InsertSimple(f, k)
    ELSE
    LET p  == TLCEval(SplitPlan(f, k))
        b  == f.bd[p.i]
        a  == b.key
        nx == f.bd[p.i + 1].key
        m  == p.m
    IN
    IF \/ p.cut /\ m[Len(m)] = 0 /\ f.minlen < Len(m)
       \/ SameBits(m, a)
       \/ SameBits(m, nx)
    THEN InsertSimple(f, k)
    ELSE
    LET gl   == TLCEval(Geo(a, m))
        gr   == TLCEval(Geo(m, nx))
        n    == Len(b.list)
        pl   == TLCEval([j \in 1..(p.pos - 1) |-> AbsPrefix(p.g, f.I, b.list[j])])
        pr   == TLCEval([j \in 1..(n - p.pos + 1) |-> AbsPrefix(p.g, f.I, b.list[p.pos + j - 1])])
    IN
    IF \/ p.cut /\ p.L <= MaxI(gl.sh, gr.sh)
       \/ p.pos > 1 /\ f.I + p.g.im + gl.B - p.g.B > WORD
       \/ p.pos <= n /\ f.I + p.g.im + gr.B - p.g.B > WORD
       \/ SumSeq([j \in 1..Len(pl) |-> RefitCount(gl, a, m, pl[j])])
            + SumSeq([j \in 1..Len(pr) |-> RefitCount(gr, m, nx, pr[j])]) > n + MAXEXP
    THEN InsertSimple(f, k)
    ELSE
    LET ll   == RefitAll(gl, f.I, a, m, pl)
        rl   == RefitAll(gr, f.I, m, nx, pr)
        left == [b EXCEPT !.list = ll, !.grade = AllocGrade(f.tab, Len(ll))]
        rest == IF p.cut THEN Tail(rl) ELSE rl  \* the new boundary stands for the first one
        r0   == [key |-> m, part |-> p.cut, inv |-> IF p.cut THEN p.inv ELSE 0,
                 grade |-> AllocGrade(f.tab, Len(rest)), list |-> rest]
        x0   == BitsAt(k, gr.B, f.I)
        rght == IF p.cut THEN StoreAdd(f, r0, IF x0 % 2 = 0 THEN x0 + 1 ELSE x0) ELSE r0
    IN  [f EXCEPT !.bd = SubSeq(f.bd, 1, p.i - 1) \o <<left, rght>> \o SubSeq(f.bd, p.i + 1, Len(f.bd))]

\* Removing the boundary at position i; its store and the one before it are joined.
Merge(f, i) ==
    IF i = 1 \/ i = Len(f.bd) THEN f
    ELSE
    LET l  == f.bd[i - 1]
        c  == f.bd[i]
        r  == f.bd[i + 1]
        g  == TLCEval(Geo(l.key, r.key))
        gl == TLCEval(Geo(l.key, c.key))
        gr == TLCEval(Geo(c.key, r.key))
        ll == [j \in 1..Len(l.list) |-> ToInfix(g, f.I, AbsPrefix(gl, f.I, l.list[j]), l.key)]
        rl == [j \in 1..Len(c.list) |-> ToInfix(g, f.I, AbsPrefix(gr, f.I, c.list[j]), c.key)]
        s  == ListSort(TLCEval(ll \o rl))
    IN  [f EXCEPT !.bd = SubSeq(f.bd, 1, i - 2)
                         \o <<[l EXCEPT !.list = s, !.grade = AllocGrade(f.tab, Len(s))]>>
                         \o SubSeq(f.bd, i + 1, Len(f.bd))]

CanDelete(f, k) ==              \* k is represented, so deleting it is meaningful
    LET i == HomeOf(f, k) IN
    \/ i = Len(f.bd)
    \/ f.bd[i].key = k /\ ~f.bd[i].part
    \/ PrefixHit(f.bd[i], k)
    \/ Matches(f.bd[i].list, f.I, InfixOf(Geo(f.bd[i].key, f.bd[i + 1].key), f.I, k)) # {}

Delete(f, k) ==
    LET i == HomeOf(f, k)
        b == f.bd[i]
    IN
    IF b.key = k /\ ~b.part THEN Merge(f, i)
    ELSE
    LET g  == Geo(b.key, f.bd[i + 1].key)
        ms == Matches(b.list, f.I, InfixOf(g, f.I, k))
    IN
    IF PrefixHit(b, k) /\ (ms = {} \/ W * Len(b.key) - b.inv > AbsLen(g, f.I, b.list[MaxOf(ms)]))
    THEN Merge(f, i)
    ELSE [f EXCEPT !.bd[i].grade = ShrinkGrade(f.tab, @, Len(b.list)),
                   !.bd[i].list  = ListRemove(@, MaxOf(ms))]

ShrinkInfix(I, J, v) ==         \* from infix size I to J < I: cut, keeping a terminator
    LET d == I - J
    IN  (v \div P2(d)) + (IF LowPos(v) < d /\ (v \div P2(d)) % 2 = 0 THEN 1 ELSE 0)
Shrink(f, J) ==
    [f EXCEPT !.I = J,
              !.bd = [i \in 1..Len(f.bd) |->
                        [f.bd[i] EXCEPT !.list = [j \in 1..Len(f.bd[i].list) |->
                                                    ShrinkInfix(f.I, J, f.bd[i].list[j])]]]]

-----------------------------------------------------------------------------
(* Queries *)

PointQ(f, k) ==
    LET i == HomeOf(f, k)
    IN  \/ f.bd[i].key = k
        \/ PrefixHit(f.bd[i], k)
        \/ LET g == Geo(f.bd[i].key, f.bd[i + 1].key)
               x == Val(g, f.I, k)
           IN  Matches(f.bd[i].list, f.I, x) # {}

\* Some infix of s meets the values x..y: one of a cell strictly between, or one at the ends.
Meets(s, I, x, y) ==
    LET c == x \div P2(I)
        d == y \div P2(I)
    IN  \/ OfCells(s, I, c + 1, d - 1) # {}
        \/ \E j \in OfCells(s, I, c, c) \cup OfCells(s, I, d, d) : Lo(s[j]) <= y /\ x <= Hi(s[j])
AllMeets(s, x, y) == \E j \in 1..Len(s) : Lo(s[j]) <= y /\ x <= Hi(s[j])

\* i: position of the first boundary not below l
RangeQ(f, l, r) ==
    LET i == Seek(f.bd, l)
    IN  \/ KeyLE(f.bd[i].key, r)
        \/ PrefixHit(f.bd[i - 1], l)
        \/ LET g == Geo(f.bd[i - 1].key, f.bd[i].key)
               x == InfixOf(g, f.I, l)
               y == InfixOf(g, f.I, r)
               s == f.bd[i - 1].list
           IN  Meets(s, f.I, x, y)

\* Entries: infixes and boundary keys.
Entries(f) == SumSeq([i \in 1..Len(f.bd) |-> 1 + Len(f.bd[i].list)])

-----------------------------------------------------------------------------
(* Construction *)

Empty(I, tab) == [I |-> I, minlen |-> 2147483647, tab |-> tab, bd |-> <<>>]

\* ks: sorted distinct keys.  Every TARGET-th key and the last are boundaries.
Chunk(I, tab, ks, from, to, grade) ==           \* the store of boundary ks[from] up to ks[to]
    LET g == TLCEval(Geo(ks[from], ks[to]))
    IN  Store(ks[from], grade, [j \in 1..(to - from - 1) |-> InfixOf(g, I, ks[from + j])])

RECURSIVE Chunks(_, _, _, _)
Chunks(I, tab, ks, from) ==
    IF from = Len(ks) THEN <<Store(ks[from], tab.sep, <<>>)>>
    ELSE IF from + TARGET <= Len(ks)
         THEN <<Chunk(I, tab, ks, from, from + TARGET, tab.sep)>> \o Chunks(I, tab, ks, from + TARGET)
         ELSE <<Chunk(I, tab, ks, from, Len(ks), TailGrade(tab, Len(ks) - from - 1)),
                Store(ks[Len(ks)], tab.sep, <<>>)>>

MinLen(ks) == FoldLeft(LAMBDA n, k : MinI(n, Len(k)), 2147483647, ks)
MaxLen(ks) == FoldLeft(LAMBDA n, k : MaxI(n, Len(k)), 0, ks)

Rep(b, n) == [i \in 1..n |-> b]
ONES == P2(W) - 1

\* sent: the sentinel keys the route adds
BulkLoad(I, tab, ks, sent) ==
    LET f0 == [Empty(I, tab) EXCEPT !.bd = Chunks(I, tab, ks, 1), !.minlen = MinLen(ks)]
        f1 == AddBoundary(f0, sent[1])
    IN  AddBoundary(f1, sent[2])
SentinelsFixed(n)     == <<Rep(0, n), Rep(ONES, n)>>
SentinelsVariable(ks) == <<Rep(0, 8), Rep(ONES, MaxLen(ks))>>
SentinelsStream(ks)   == <<Rep(0, MaxLen(ks)), Rep(ONES, MaxLen(ks))>>

\* A reloaded filter has the same content; only the key lengths seen are forgotten.
Reload(f) == [f EXCEPT !.minlen = 0]

\* Bytes of the serialised form.
RECURSIVE BytesOf(_, _)
BytesOf(f, i) ==
    IF i > Len(f.bd) THEN 0
    ELSE LET words == 1 + (TARGET + SizeOfGrade(f.tab, f.bd[i].grade) * (f.I + 1) + 63) \div 64
         IN  4 + 8 * ((Len(f.bd[i].key) + 7) \div 8) + 4 + 8 * words + BytesOf(f, i + 1)
SerialSize(f) == 49 + BytesOf(f, 1) + 4
=============================================================================
