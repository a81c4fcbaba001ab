----------------------------- MODULE TraceLife -----------------------------
(* Checks recorded executions of the real code against the coarse life cycle  *)
(* of Ownership: a structure is made, serves calls, and is destroyed, and     *)
(* then owns nothing.  The executions run under a memory checker; a call that *)
(* touches memory that is not its own, or does not return, leaves a crash or  *)
(* hang event in the trace, which no action allows.                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES at, phase
tvars == <<at, phase>>

Makes  == {"init", "load", "new"}
Serves == {"ins", "del", "shr", "rel", "qry",                      \* filter
           "up", "down",                                           \* store, besides ins, del, shr
           "put", "get", "probe", "delr", "iter", "inpr", "inpw",  \* trees, besides del
           "merge", "iinp", "clean", "pause"}

Make(e)    == /\ e.e \in Makes /\ phase = "none" /\ phase' = "open"
Serve(e)   == /\ e.e \in Serves /\ phase = "open" /\ phase' = "open"
Destroy(e) == /\ e.e = "end" /\ phase = "open" /\ phase' = "none"
              /\ e.blocks = 0 /\ e.pages = 0            \* Ownership!Owned

TInit == at = 0 /\ phase = "none"
TNext == /\ at < Len(Trace)
         /\ at' = at + 1
         /\ LET e == Trace[at + 1] IN Make(e) \/ Serve(e) \/ Destroy(e)
TSpec == TInit /\ [][TNext]_tvars
TView == at
Accepted == /\ TLCGet("stats").diameter - 1 = Len(Trace)
            /\ Len(Trace) > 0 => Trace[Len(Trace)].e = "end"
=============================================================================
