---------------------------- MODULE EffortTrace ----------------------------
(* Could a table of an allowed size have done what the recorded lookups did?  *)
EXTENDS Effort, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Match(e) ==
  CASE e.op = "build" -> Build(e.kind, e.codes, e.room, Allowed(e.kind, Len(e.codes)))
    [] e.op = "look"  -> Look(e.ps, e.hashes, e.cmp)
    [] OTHER -> FALSE
TraceInit == EInit /\ l = 1 /\ tr \in DOMAIN Traces
Step ==
  /\ l <= Len(Traces[tr].ev)
  /\ Match(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr
TraceSpec == TraceInit /\ [][Step]_<<evars, tr, l>>
TraceInv == TLCSet(tr, l)
TraceVerdict == \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t].ev) + 1 \/ PrintT(<<"STUCK", t, TLCGet(t)>>)
=============================================================================
