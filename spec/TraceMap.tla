------------------------------ MODULE TraceMap ------------------------------
(* Checks executions recorded from the real trees against OrderedMap.         *)
EXTENDS OrderedMap, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES at, m
tvars == <<at, m>>
Bit(b) == IF b THEN 1 ELSE 0

RECURSIVE Walk(_, _, _, _)
Walk(e, M, p, i) ==             \* the i-th observation of e is made at position p
    /\ IF p = 0 THEN e.vs[i] = -2 ELSE e.vs[i] = M[p][2] /\ e.ks[i] = M[p][1]
    /\ i < Len(e.vs) => Walk(e, M, Move(M, p, e.st[i]), i + 1)

Act(e) == CASE e.e = "new"  -> <<>>
            [] e.e = "put"  -> Put(m, e.k, e.v)
            [] e.e = "del"  -> Del(m, e.k)
            [] e.e = "delr" -> DelRange(m, e.k, e.k2)
            [] e.e = "inpw" -> Replace(m, Exactly(m, e.k), e.v)
            [] e.e = "iinp" -> Replace(m, Seek(m, e.k), e.v)
            [] e.e = "merge" -> IF e.md = "s" THEN Put(m, e.k, e.v) ELSE m
            [] e.e = "clean" -> <<>>
            [] OTHER -> m
\* What an in-place access at position p reports: whether there is an entry, and which.
Shown(e, p) == /\ e.f = Bit(p # 0)
               /\ p # 0 => e.ok = m[p][1] /\ e.o = m[p][2]
Allowed(e) == CASE e.e \in {"new", "clean", "pause"} -> TRUE
                [] e.e = "put" -> e.a = 1
                [] e.e \in {"inpr", "inpw"} -> Shown(e, Exactly(m, e.k)) /\ e.a = e.f
                [] e.e = "iinp" -> Shown(e, Seek(m, e.k)) /\ e.a = e.f
                [] e.e = "merge" -> Shown(e, Exactly(m, e.k)) /\ e.a = 1
                [] e.e \in {"del", "probe"} -> e.a = Bit(HasKey(m, e.k))
                [] e.e = "get"  -> /\ e.a = Bit(HasKey(m, e.k))
                                   /\ e.a = 1 => e.v = ValueAt(m, e.k)
                [] e.e = "delr" -> e.n = Len(m) - Len(DelRange(m, e.k, e.k2))
                [] e.e = "iter" -> Walk(e, m, Seek(m, e.k), 1)
                [] OTHER -> FALSE

TInit == at = 0 /\ m = <<>>
TNext == /\ at < Len(Trace)
         /\ at' = at + 1
         /\ LET e == Trace[at + 1] IN Allowed(e) = TRUE /\ m' = Act(e)
TSpec == TInit /\ [][TNext]_tvars
TView == at
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
