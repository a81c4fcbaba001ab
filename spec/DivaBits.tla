------------------------------ MODULE DivaBits ------------------------------
(* Byte strings read as infinite bit strings.  A key is a sequence of bytes,  *)
(* each byte an integer of W bits; bit positions are counted from 0 and every *)
(* bit behind the end of the key is 0.  W = 8 in the implementation; small    *)
(* values of W are used to model check exhaustively.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

CONSTANT W                      \* bits per byte

Pow2Tab == [i \in 0..30 |-> 2^i]
P2(i) == Pow2Tab[i]

MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Byte(k, i) == IF i < Len(k) THEN k[i + 1] ELSE 0        \* i counted from 0

BitAt(k, p) == (Byte(k, p \div W) \div P2(W - 1 - (p % W))) % 2

\* The integer formed by the w bits of k from position p on (w at most 30).
RECURSIVE BitsAt(_, _, _)
BitsAt(k, p, w) ==
    IF w = 0 THEN 0
    ELSE LET off  == p % W
             m    == MinI(w, W - off)
             part == (Byte(k, p \div W) \div P2(W - off - m)) % P2(m)
         IN  part * P2(w - m) + BitsAt(k, p + m, w - m)

\* Lexicographic order of byte strings: a proper prefix comes first.
\* a and b agree on the first lo elements and differ within the first hi + 1, if at all
RECURSIVE Agree(_, _, _, _)
Agree(a, b, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF SubSeq(a, lo + 1, mid) = SubSeq(b, lo + 1, mid) THEN Agree(a, b, mid, hi) ELSE Agree(a, b, lo, mid - 1)
\* the first index (from 0) where a and b differ, or the shorter length
FirstByteDiff(a, b) == Agree(a, b, 0, MinI(Len(a), Len(b)))

KeyLT(a, b) ==
    LET d == FirstByteDiff(a, b)
    IN  IF d < Len(a) /\ d < Len(b) THEN a[d + 1] < b[d + 1] ELSE Len(a) < Len(b)
KeyLE(a, b) == a = b \/ KeyLT(a, b)

\* Equality as infinite bit strings.
Zeros(n) == [i \in 1..n |-> 0]
Tail0(s, n) == SubSeq(s, n + 1, Len(s)) = Zeros(Len(s) - n)        \* only zeros behind the first n
SameBits(a, b) == LET d == FirstByteDiff(a, b)
                  IN d = MinI(Len(a), Len(b)) /\ Tail0(a, d) /\ Tail0(b, d)

\* First byte index where a and b differ as infinite strings (they must differ).
ByteDiff(a, b) ==
    LET d == FirstByteDiff(a, b) IN
    IF d < Len(a) /\ d < Len(b) THEN d
    ELSE LET s == IF Len(a) > d THEN a ELSE b IN d + Agree(SubSeq(s, d + 1, Len(s)), Zeros(Len(s) - d), 0, Len(s) - d)

RECURSIVE BitDiff(_, _, _)
BitDiff(a, b, p) == IF BitAt(a, p) # BitAt(b, p) THEN p ELSE BitDiff(a, b, p + 1)

FirstBitDiff(a, b) == BitDiff(a, b, W * ByteDiff(a, b))

\* The w bits of the integer n, most significant first, as a sequence.
IntBits(n, w) == [i \in 1..w |-> (n \div P2(w - i)) % 2]

\* The integer formed by bits i..j of a bit sequence (j - i < 30).
RECURSIVE SeqInt(_, _, _)
SeqInt(s, i, j) == IF j < i THEN 0 ELSE 2 * SeqInt(s, i, j - 1) + s[j]

\* Position (from 0, least significant first) of the lowest set bit of n > 0.
RECURSIVE LowPos(_)
LowPos(n) == IF n % 2 = 1 THEN 0 ELSE 1 + LowPos(n \div 2)
LowBit(n) == n - (n & (n - 1))
=============================================================================
