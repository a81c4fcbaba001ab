---------------------------- MODULE TraceContract ----------------------------
(* Checks executions recorded from the real filter against FilterContract.    *)
(* A trace file holds one or more executions, each starting with an "init"    *)
(* event.  Keys are given as positions in the sorted table of the init event. *)
(* JUDGE names the conditions this run decides.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Judge == IOEnv.JUDGE                    \* e.g. "fnp,fnr"
Conditions == {"fnp", "fnr", "entry", "shrink", "ser", "pair", "ro"}
JudgeSet == TLCEval({x \in Conditions :
                     \E i \in 1..(Len(Judge) - Len(x) + 1) : SubSeq(Judge, i, i + Len(x) - 1) = x})
J(name) == name \in JudgeSet
Gate == IOEnv.GATE                      \* "" or the kind of step that has to come first

VARIABLES at, bag, pos, n, I, bytes, tbl, open, dg
tvars == <<at, bag, pos, n, I, bytes, tbl, open, dg>>

TLE(i, j) == i <= j
C == INSTANCE FilterContract WITH CKeys <- {}, CLE <- TLE, CSent <- {}

Has(e, x) == x \in DOMAIN e
Yes(x) == x = 1

\* Lexicographic order of the byte strings in the table
RECURSIVE Agree(_, _, _, _)
Agree(a, b, lo, hi) ==          \* the length of their longest common prefix
    IF lo = hi THEN lo
    ELSE LET mid == (lo + hi + 1) \div 2
         IN IF SubSeq(a, lo + 1, mid) = SubSeq(b, lo + 1, mid) THEN Agree(a, b, mid, hi) ELSE Agree(a, b, lo, mid - 1)
LexLT(a, b) == LET d == Agree(a, b, 0, IF Len(a) < Len(b) THEN Len(a) ELSE Len(b))
               IN IF d < Len(a) /\ d < Len(b) THEN a[d + 1] < b[d + 1] ELSE Len(a) < Len(b)

Points(e, B) == (J("fnp") /\ open' /\ Has(e, "pk")) =>
    \A i \in 1..Len(e.pk) : C!PointAllowed(B, e.pk[i], Yes(e.pa[i]))
\* the least key of the bag not below l is the one that matters
Ranges(e, B) == (J("fnr") /\ open' /\ Has(e, "rl")) =>
    \A i \in 1..Len(e.rl) : C!RangeAllowed(B, e.rl[i], e.rr[i], Yes(e.ra[i]))
\* The second filter (other variant, other bulk-loading route) answers alike and holds the same.
Pairs(e) == J("pair") =>
    /\ Has(e, "pb") => e.pa = e.pb
    /\ Has(e, "rb") => e.ra = e.rb
    /\ Has(e, "ct2") => e.ct = e.ct2
\* C06: as many bytes as announced; a filter made from them is the same filter.
Serial(e) == J("ser") =>
    /\ Has(e, "ser") => e.ser = e.szr
    /\ Has(e, "d1") => e.d0 = e.d1 /\ e.sz2 = e.ser /\ e.qa = e.qb /\ e.ua = e.ub
\* C12: dg bytes after the step, dq after read-only calls, d2 those of a twin that was never queried.
ReadOnly(e) == J("ro") =>
    /\ Has(e, "dq") => e.dq = e.dg
    /\ Has(e, "d2") => e.d2 = e.dg
    /\ (Has(e, "dg") /\ e.e = "qry") => e.dg = dg
Seen(e, B) == Points(e, B) /\ Ranges(e, B) /\ Pairs(e) /\ Serial(e) /\ ReadOnly(e)

Keep(e) ==
    /\ n' = IF Has(e, "n") THEN e.n ELSE -1
    /\ dg' = IF Has(e, "dg") THEN e.dg ELSE -1
    /\ pos' = pos
    /\ bytes' = bytes
    /\ tbl' = tbl

Start(e) ==
    /\ e.e = "init"
    /\ (\A i \in 1..(Len(e.tbl) - 1) : LexLT(e.tbl[i], e.tbl[i + 1])) = TRUE
    /\ tbl' = e.tbl
    /\ bag' = [k \in {e.bulk[i] : i \in 1..Len(e.bulk)} |-> 1]
    /\ I' = e.I
    /\ n' = IF Has(e, "n") THEN e.n ELSE -1
    /\ dg' = IF Has(e, "dg") THEN e.dg ELSE -1
    /\ open' = (Gate = "")
    /\ pos' = {} /\ bytes' = 0
    /\ Seen(e, bag') = TRUE

Insert(e) ==
    /\ e.e = "ins"
    /\ bag' = C!BagAdd(bag, e.k)
    /\ I' = I /\ open' = open
    /\ Keep(e) /\ Seen(e, bag') = TRUE

Delete(e) ==
    /\ e.e = "del"
    /\ e.k \in DOMAIN bag
    /\ bag' = C!BagDel(bag, e.k)
    /\ I' = I /\ open' = (open \/ Gate = "del")
    /\ (J("entry") /\ n >= 0 /\ Has(e, "n")) => C!DeleteCounts({0, Len(tbl) - 1}, e.k, n, e.n)
    /\ Keep(e) /\ Seen(e, bag') = TRUE

Shrink(e) ==
    /\ e.e = "shr"
    /\ e.J < I
    /\ I' = e.J /\ bag' = bag /\ open' = (open \/ Gate = "shr")
    /\ J("shrink") =>
        /\ (n >= 0 /\ Has(e, "n")) => C!ShrinkAllowed(n, e.n, e.z0, e.z1)
        /\ Has(e, "s0") => \A i \in 1..Len(e.s0) : C!KeptPositive(Yes(e.s0[i]), Yes(e.s1[i]))
    /\ Keep(e) /\ Seen(e, bag') = TRUE

Reload(e) ==
    /\ e.e = "rel"
    /\ UNCHANGED <<bag, I>> /\ open' = (open \/ Gate = "rel")
    /\ (J("ser") /\ n >= 0 /\ Has(e, "n")) => e.n = n
    /\ Keep(e) /\ Seen(e, bag') = TRUE

Look(e) ==
    /\ e.e = "qry"
    /\ UNCHANGED <<bag, I, open>>
    /\ Keep(e) /\ Seen(e, bag') = TRUE

Init == at = 0 /\ bag = <<>> /\ pos = {} /\ n = -1 /\ I = 0 /\ bytes = 0 /\ tbl = <<>> /\ open = FALSE /\ dg = -1
Next ==
    /\ at < Len(Trace)
    /\ at' = at + 1
    /\ LET e == Trace[at + 1]
       IN  Start(e) \/ Insert(e) \/ Delete(e) \/ Shrink(e) \/ Reload(e) \/ Look(e)
Spec == Init /\ [][Next]_tvars
View == at
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
