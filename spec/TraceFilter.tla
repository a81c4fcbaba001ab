----------------------------- MODULE TraceFilter -----------------------------
(* Checks executions recorded from the real filter against DivaSpec: the      *)
(* state of the specification is advanced by the action each event names, and *)
(* answers, stored content and size have to be those of the specification.    *)
(* The same file format as TraceContract; W = 8, BASE = 10 etc. are those of  *)
(* the implementation.                                                        *)
EXTENDS DivaSpec, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Judge == IOEnv.JUDGE
Conditions == {"ptx", "rgx", "content", "size", "grade"}
JudgeSet == TLCEval({x \in Conditions : \E i \in 1..(Len(Judge) - Len(x) + 1) : SubSeq(Judge, i, i + Len(x) - 1) = x})
J(name) == name \in JudgeSet

VARIABLES at, tbl
tvars == <<f, bag, last, at, tbl>>

Has(e, x) == x \in DOMAIN e
Bit(b) == IF b THEN 1 ELSE 0
Key(i) == tbl[i + 1]

\* C07: answers are exactly those the content explains.
Points(e, F, T) == (J("ptx") /\ Has(e, "pk")) =>
    \A i \in 1..Len(e.pk) : e.pa[i] = Bit(PointQ(F, T[e.pk[i] + 1]))
Ranges(e, F, T) == (J("rgx") /\ Has(e, "rl")) =>
    \A i \in 1..Len(e.rl) : e.ra[i] = Bit(RangeQ(F, T[e.rl[i] + 1], T[e.rr[i] + 1]))
\* C07: the content is exactly what the operations call for.
Content(e, F) == (J("content") /\ Has(e, "st")) =>
    /\ Len(e.st) = Len(F.bd)
    /\ \A i \in 1..Len(e.st) :
        /\ e.st[i].ok = 1
        /\ e.st[i].key = F.bd[i].key
        /\ e.st[i].part = Bit(F.bd[i].part)
        /\ F.bd[i].part => e.st[i].inv = F.bd[i].inv
        /\ e.st[i].list = F.bd[i].list
\* C14: the step of each store, and the size in bytes.
Grades(e, F) == (J("grade") /\ Has(e, "st")) =>
    /\ Len(e.st) = Len(F.bd)
    /\ \A i \in 1..Len(e.st) : e.st[i].grade = F.bd[i].grade
Size(e, F) == (J("size") /\ Has(e, "sz")) => e.sz = SerialSize(F)
Seen(e, F, T) == Points(e, F, T) /\ Ranges(e, F, T) /\ Content(e, F) /\ Grades(e, F) /\ Size(e, F)

Start(e) ==
    LET ks == [i \in 1..Len(e.bulk) |-> e.tbl[e.bulk[i] + 1]]
        sent == IF e.route = 1 THEN SentinelsVariable(ks) ELSE SentinelsStream(ks)
    IN
    /\ e.e = "init"
    /\ tbl' = e.tbl
    /\ f' = BulkLoad(e.I, e.tab, ks, sent)
    /\ bag' = [k \in {ks[i] : i \in 1..Len(ks)} |-> 1]
    /\ last' = <<"bulk">>
    /\ Seen(e, f', e.tbl) = TRUE

Step(e) ==
    /\ \/ e.e = "ins" /\ e.m \in {"s", "n"} /\ InsertSimpleA(Key(e.k))
       \/ e.e = "ins" /\ e.m \in {"p", "n"} /\ InsertSplitA(Key(e.k))
       \/ e.e = "del" /\ DeleteA(Key(e.k))
       \/ e.e = "shr" /\ ShrinkA(e.J)
       \/ e.e = "rel" /\ f' = Reload(f) /\ bag' = bag /\ last' = <<"reload">>
       \/ e.e = "qry" /\ UNCHANGED <<f, bag, last>>
    /\ tbl' = tbl
    /\ Seen(e, f', tbl) = TRUE

TInit == at = 0 /\ tbl = <<>> /\ f = <<>> /\ bag = <<>> /\ last = <<>>
TNext == /\ at < Len(Trace)
         /\ at' = at + 1
         /\ LET e == Trace[at + 1] IN Start(e) \/ Step(e)
TSpec == TInit /\ [][TNext]_tvars
TView == <<at, f>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
None == {}
=============================================================================
