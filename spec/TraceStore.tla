----------------------------- MODULE TraceStore -----------------------------
(* Checks executions recorded from one real infix store against InfixStore.   *)
EXTENDS InfixStore, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Judge == IOEnv.JUDGE
JudgeSet == TLCEval({x \in {"list", "look"} : \E i \in 1..(Len(Judge) - Len(x) + 1) : SubSeq(Judge, i, i + Len(x) - 1) = x})
J(name) == name \in JudgeSet
VARIABLES at, s
tvars == <<at, s>>
Has(e, x) == x \in DOMAIN e
Bit(b) == IF b THEN 1 ELSE 0

Holds(e, S) == J("list") =>
    /\ Has(e, "n") => e.n = Len(S.list)
    /\ Has(e, "il") => e.il = S.list
    /\ Has(e, "occ") => LayoutHolds(e, S.I, TARGET \div 2, S.list)
Looks(e, S) == (J("look") /\ Has(e, "px")) =>
    /\ \A i \in 1..Len(e.px) : e.pa[i] = Bit(SPoint(S, e.px[i]))
    /\ \A i \in 1..Len(e.rl) : e.ra[i] = Bit(SRange(S, e.rl[i], e.rr[i]))
    /\ \A i \in 1..Len(e.lx) : e.la[i] = SLongest(S, e.lx[i])

Act(e) == CASE e.e = "load" -> SLoad(e.I, e.T, e.grade, e.tab, e.list)
            [] e.e = "ins"  -> SInsert(s, e.v)
            [] e.e = "del"  -> SDelete(s, e.v)
            [] e.e = "up"   -> SResize(s, TRUE)
            [] e.e = "down" -> SResize(s, FALSE)
            [] e.e = "shr"  -> SShrink(s, e.v)
Known == {"load", "ins", "del", "up", "down", "shr"}

TInit == at = 0 /\ s = <<>>
TNext == /\ at < Len(Trace)
         /\ at' = at + 1
         /\ LET e == Trace[at + 1] IN
                /\ e.e \in Known
                /\ s' = Act(e)
                /\ (Holds(e, s') /\ Looks(e, s')) = TRUE
TSpec == TInit /\ [][TNext]_tvars
TView == at
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
