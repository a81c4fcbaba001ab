------------------------------ MODULE WormTree ------------------------------
(* The structure behind both trees: a list of leaves, each with an anchor     *)
(* that bounds its keys from below, and an index with an entry for every      *)
(* prefix of an anchor.  An entry knows its leftmost and rightmost leaf, the  *)
(* bytes it branches to, and the leaf for keys that end or go left of all     *)
(* branches (lpath).  A lookup takes the longest prefix of the key that is in *)
(* the index and from there one step.  Splits and merges update the index     *)
(* piecemeal; the model checks that the index always is what the list of      *)
(* leaves calls for, that every lookup reaches the leaf whose range holds the *)
(* key, and that the tree refines OrderedMap.                                 *)
EXTENDS OrderedMap

CONSTANTS ALPHA,                \* bytes are 0..ALPHA-1
          MAXLEN,               \* keys have at most so many bytes
          CAP,                  \* keys per leaf
          MRG,                  \* leaves with fewer keys together are merged
          MAXKEYS               \* bound on the number of keys

VARIABLES leaves, meta, map
vars == <<leaves, meta, map>>

RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET S == Strings(n - 1) IN S \cup {Append(s, b) : s \in {t \in S : Len(t) = n - 1}, b \in 0..(ALPHA - 1)}
Keys == TLCEval(Strings(MAXLEN))
Probes == TLCEval(Strings(MAXLEN + 1))

Lcp(a, b) == FirstByteDiff(a, b)
Pre(k, n) == SubSeq(k, 1, n)
IsPre(p, k) == Len(p) <= Len(k) /\ Pre(k, Len(p)) = p

Entry(lm, rm, lp, ch) == [lm |-> lm, rm |-> rm, lp |-> lp, ch |-> ch]
NoLeaf == <<-1>>
AnchorAt(L, i) == IF i >= 1 /\ i <= Len(L) THEN L[i].anchor ELSE NoLeaf

\* Setting the leftmost leaf of entry p also sets its lpath.
SetLeft(M, p, leaf, prev) == [M EXCEPT ![p].lm = leaf, ![p].lp = IF Len(leaf) = Len(p) THEN leaf ELSE prev]

\* lpath of the entries on a2's own branch, below what it shares with a1.
LpathUpdate(M, a1, a2, leaf) ==
    [p \in DOMAIN M |-> IF IsPre(p, a2) /\ Len(p) > Lcp(a1, a2) /\ Len(p) < Len(a2) THEN [M[p] EXCEPT !.lp = leaf] ELSE M[p]]

\* Touching the entries for the prefixes of the new leaf's anchor, from length n on.
RECURSIVE Touch(_, _, _, _, _)
Touch(M, a, prev, next, n) ==
    LET p == Pre(a, n)
        M1 == IF p \in DOMAIN M
              THEN LET B == IF n < Len(a) THEN [M EXCEPT ![p].ch = @ \cup {a[n + 1]}] ELSE M
                   IN  IF B[p].lm = next THEN SetLeft(B, p, a, prev)
                       ELSE IF B[p].rm = prev THEN [B EXCEPT ![p].rm = a] ELSE B
              ELSE M @@ (p :> Entry(a, a, IF n = Len(a) THEN a ELSE prev, IF n < Len(a) THEN {a[n + 1]} ELSE {}))
    IN  IF n >= Len(a) THEN M1 ELSE Touch(M1, a, prev, next, n + 1)
MetaSplit(M, a, prev, next) ==
    LET M1 == Touch(M, a, prev, next, IF next = NoLeaf THEN 0 ELSE Lcp(prev, next))
    IN  IF next = NoLeaf THEN M1 ELSE LpathUpdate(M1, a, next, a)

\* Removing the leaf with anchor a; prev and next are its neighbours.
RECURSIVE Drop(_, _, _, _, _, _)
Drop(M, a, prev, next, n, parent) ==
    LET p == Pre(a, n)
        one == M[p].lm = M[p].rm
        M1 == IF one
              THEN LET D == [q \in (DOMAIN M) \ {p} |-> M[q]]
                   IN  IF parent THEN [D EXCEPT ![Pre(a, n - 1)].ch = @ \ {a[n]}] ELSE D
              ELSE IF M[p].lm = a THEN SetLeft(M, p, next, prev)
              ELSE IF M[p].rm = a THEN [M EXCEPT ![p].rm = prev] ELSE M
        leafEntry == one /\ M[p].ch = {}
    IN  IF n >= Len(a) \/ leafEntry THEN M1 ELSE Drop(M1, a, prev, next, n + 1, ~one)
MetaMerge(M, a, prev, next) ==
    LET M1 == Drop(M, a, prev, next, IF next = NoLeaf THEN 0 ELSE Lcp(prev, next), FALSE)
    IN  IF next = NoLeaf THEN M1 ELSE LpathUpdate(M1, a, next, prev)

-----------------------------------------------------------------------------
\* The leaf (its anchor) a lookup of k ends in.
Jump(M, k) ==
    LET n == MaxOf({i \in 0..Len(k) : Pre(k, i) \in DOMAIN M})
        e == M[Pre(k, n)]
        lower == {b \in e.ch : b < k[n + 1]}
    IN  IF n = Len(k) THEN e.lp
        ELSE IF lower = {} THEN e.lp
        ELSE IF MaxOf(e.ch) < k[n + 1] THEN e.rm
        ELSE M[Append(Pre(k, n), MaxOf(lower))].rm
IndexOf(a) == CHOOSE i \in 1..Len(leaves) : leaves[i].anchor = a
LeafOf(k) == IndexOf(Jump(meta, k))
Asc(S) == SetToSortSeq(S, LAMBDA a, b : KeyLT(a, b))

PutK(k) ==
    LET i == LeafOf(k)
        ks == leaves[i].ks \cup {k}
    IN  IF Cardinality(ks) <= CAP
        THEN leaves' = [leaves EXCEPT ![i].ks = ks] /\ meta' = meta
        ELSE \E cut \in 1..CAP :
             LET s == Asc(ks)
                 a == Pre(s[cut + 1], Lcp(s[cut], s[cut + 1]) + 1)
             IN  /\ leaves' = SubSeq(leaves, 1, i - 1)
                              \o <<[leaves[i] EXCEPT !.ks = {s[j] : j \in 1..cut}], [anchor |-> a, ks |-> {s[j] : j \in (cut + 1)..Len(s)}]>>
                              \o SubSeq(leaves, i + 1, Len(leaves))
                 /\ meta' = MetaSplit(meta, a, leaves[i].anchor, AnchorAt(leaves, i + 1))
DelK(k) ==
    LET i == LeafOf(k)
        ks == leaves[i].ks \ {k}
    IN  IF i < Len(leaves) /\ (ks = {} \/ Cardinality(ks) + Cardinality(leaves[i + 1].ks) < MRG)
              /\ Cardinality(ks) + Cardinality(leaves[i + 1].ks) <= CAP
        THEN /\ leaves' = SubSeq(leaves, 1, i - 1) \o <<[leaves[i] EXCEPT !.ks = ks \cup leaves[i + 1].ks]>> \o SubSeq(leaves, i + 2, Len(leaves))
             /\ meta' = MetaMerge(meta, leaves[i + 1].anchor, leaves[i].anchor, AnchorAt(leaves, i + 2))
        ELSE leaves' = [leaves EXCEPT ![i].ks = ks] /\ meta' = meta

Init == /\ leaves = <<[anchor |-> <<>>, ks |-> {}]>>
        /\ meta = (<<>> :> Entry(<<>>, <<>>, <<>>, {}))
        /\ map = <<>>
Next == \E k \in Keys :
    \/ Len(map) < MAXKEYS /\ k \notin leaves[LeafOf(k)].ks /\ PutK(k) /\ map' = Put(map, k, 1)
    \/ k \in leaves[LeafOf(k)].ks /\ DelK(k) /\ map' = Del(map, k)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Anchors == [i \in 1..Len(leaves) |-> leaves[i].anchor]
\* Anchors rise; a leaf holds keys from its anchor up to the next one.
LeavesRight ==
    \A i \in 1..Len(leaves) :
        /\ i > 1 => KeyLT(Anchors[i - 1], Anchors[i])
        /\ \A k \in leaves[i].ks : KeyLE(Anchors[i], k) /\ (i < Len(leaves) => KeyLT(k, Anchors[i + 1]))
\* The index is what the anchors call for.
Wanted ==
    LET P == UNION {{Pre(Anchors[i], n) : n \in 0..Len(Anchors[i])} : i \in 1..Len(leaves)}
    IN  [p \in P |->
            LET S == {i \in 1..Len(leaves) : IsPre(p, Anchors[i])}
                l == MinOf(S)
            IN  Entry(Anchors[l], Anchors[MaxOf(S)],
                      IF Anchors[l] = p THEN p ELSE Anchors[l - 1],
                      {Anchors[i][Len(p) + 1] : i \in {j \in S : Len(Anchors[j]) > Len(p)}})]
IndexRight == meta = Wanted
\* Every lookup ends in the leaf whose range holds the key.
JumpsRight == \A k \in Probes :
    LET i == LeafOf(k) IN KeyLE(Anchors[i], k) /\ (i < Len(leaves) => KeyLT(k, Anchors[i + 1]))
\* Content and order of the tree are those of the map.
RECURSIVE Content(_)
Content(i) == IF i > Len(leaves) THEN <<>> ELSE Asc(leaves[i].ks) \o Content(i + 1)
IsTheMap == Content(1) = [i \in 1..Len(map) |-> map[i][1]]
=============================================================================
