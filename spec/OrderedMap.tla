----------------------------- MODULE OrderedMap -----------------------------
(* A sorted map from byte strings to values: what both trees have to be.      *)
(* A map is a sequence of <<key, value>>, keys strictly rising in byte order. *)
EXTENDS DivaBits, SequencesExt

RECURSIVE SearchIn(_, _, _, _)
SearchIn(m, k, l, r) ==          \* first position in l..r whose key is not below k
    IF l = r THEN l
    ELSE LET c == (l + r) \div 2
         IN  IF KeyLT(m[c][1], k) THEN SearchIn(m, k, c + 1, r) ELSE SearchIn(m, k, l, c)
Find(m, k) == SearchIn(m, k, 1, Len(m) + 1)
HasKey(m, k) == LET p == Find(m, k) IN p <= Len(m) /\ m[p][1] = k
ValueAt(m, k) == m[Find(m, k)][2]
Put(m, k, v) ==
    LET p == Find(m, k)
    IN  IF p <= Len(m) /\ m[p][1] = k THEN [m EXCEPT ![p] = <<k, v>>]
        ELSE SubSeq(m, 1, p - 1) \o <<<<k, v>>>> \o SubSeq(m, p, Len(m))
Del(m, k) ==
    LET p == Find(m, k)
    IN  IF p <= Len(m) /\ m[p][1] = k THEN SubSeq(m, 1, p - 1) \o SubSeq(m, p + 1, Len(m)) ELSE m
\* The value at position p becomes v; position 0 is nowhere.
Replace(m, p, v) == IF p = 0 THEN m ELSE [m EXCEPT ![p] = <<m[p][1], v>>]
\* Everything from a on and below b.
DelRange(m, a, b) ==
    LET p == Find(m, a)
        q == MaxI(p, Find(m, b))
    IN  SubSeq(m, 1, p - 1) \o SubSeq(m, q, Len(m))

(* An iterator is a position; 0 means that it is not valid.                   *)
At(m, p) == IF p >= 1 /\ p <= Len(m) THEN p ELSE 0
Exactly(m, k) == IF HasKey(m, k) THEN Find(m, k) ELSE 0
Seek(m, k) == At(m, Find(m, k))
\* A step: 1 forward, -1 backward, n > 1 forward n.
Move(m, p, s) == IF p = 0 THEN 0 ELSE At(m, p + s)
=============================================================================
