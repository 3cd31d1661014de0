------------------------------ MODULE MacroTrace ------------------------------
(* Is a recorded use of frozen_map! a behaviour of Macro?                      *)
EXTENDS Macro, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l

Match(e) ==
  CASE e.op = "mbegin" -> Begin(e.o, e.pay)
    [] e.op = "meval"  -> Evaluate(e.v)
    [] e.op = "mend"   -> End
    [] e.op = "mwhole" -> Whole(e.o, e.lo, e.hi, e.runs)
    [] e.op = "gall"   -> LookupAll(e.o, e.via, e.rs) /\ UNCHANGED mvars
    [] e.op = "len"    -> LenOf(e.o, e.n, e.e) /\ UNCHANGED mvars
    [] e.op = "set"    -> Write(e.o, e.via, e.k, e.v, e.r) /\ UNCHANGED mvars
    [] e.op = "iter"   -> IterAll(e.o, e.via, e.ks, e.vs) /\ UNCHANGED mvars
    [] OTHER           -> FALSE

TraceInit == MInit /\ l = 1 /\ tr \in DOMAIN Traces

Step ==
  /\ l <= Len(Traces[tr].ev)
  /\ Match(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr

TraceSpec == TraceInit /\ [][Step]_<<vars, mvars, tr, l>>

Small == \A o \in DOMAIN objs : Cardinality(Keys(o)) <= 200
TraceInv == (Small => MTypeOK) /\ TLCSet(tr, l)

TraceVerdict ==
  \A t \in DOMAIN Traces :
    TLCGet(t) = Len(Traces[t].ev) + 1 \/ PrintT(<<"STUCK", t, TLCGet(t)>>)
=============================================================================
