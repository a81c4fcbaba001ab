------------------------------- MODULE MCSmall -------------------------------
EXTENDS DivaSpec
\* 2-bit bytes, cells of 2 or 3 bits, four keys per store.
ByteSet == 0..3
MCKeysVar == {<<1>>, <<1, 0>>, <<1, 2>>, <<1, 2, 0>>, <<1, 2, 1>>, <<2, 1, 3>>}
MCKeysFix == {<<0,0,1,2>>, <<0,1,2,1>>, <<0,1,2,2>>, <<1,2,0,0>>, <<1,2,1,3>>, <<2,0,0,0>>}
MCZero == <<0, 0, 0, 0>>
MCTop == <<3, 3, 3, 3>>
MCTab == [sizes |-> <<2, 3, 4, 5, 7, 9, 12, 15, 19, 24, 30, 40, 60, 90, 130, 200, 300>>, exc |-> 1, num |-> 5, shift |-> 2, sep |-> 3]
MCBulk == {<<MCZero, <<0,1,2,1>>, <<0,1,2,2>>, <<1,2,0,0>>, <<1,2,1,3>>, <<2,0,0,0>>>>}
NoBulk == {}
MCView == <<f, bag>>
MCBound == Entries(f) <= 16
MCKeysFix3 == {<<0,1,2,1>>, <<0,1,2,2>>, <<1,2,0,0>>}
MCKeysVar4 == {<<1>>, <<1, 0>>, <<1, 2, 0>>, <<1, 2, 1>>}
=============================================================================
