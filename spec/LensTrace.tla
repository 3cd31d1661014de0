------------------------------ MODULE LensTrace ------------------------------
(* Is a recorded use of containers a behaviour of Lens?                       *)
EXTENDS Lens, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Match(e) ==
  CASE e.op = "make" -> Make(e.o, e.kind, e.xs)
    [] e.op = "add"  -> Add(e.o, e.at, e.x)
    [] e.op = "take" -> Take(e.o, e.at)
    [] e.op = "cut"  -> Cut(e.o, e.n)
    [] e.op = "clear" -> Clear(e.o)
    [] e.op = "fill" -> Fill(e.o, e.x, e.n)
    [] e.op = "same" -> Same(e.o)
    [] e.op = "copy" -> Copy(e.o, e.p)
    [] e.op = "absorb" -> Absorb(e.o, e.p)
    [] e.op = "drop" -> Drop(e.o)
    [] e.op = "lens" -> Lens(e.o, e.ns, e.es)
    [] e.op = "huge" -> HugeLens(e.limbs, e.ns, e.es)
    [] OTHER -> FALSE
TraceInit == Init /\ l = 1 /\ tr \in DOMAIN Traces
Step ==
  /\ l <= Len(Traces[tr].ev)
  /\ Match(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr
TraceSpec == TraceInit /\ [][Step]_<<cs, tr, l>>
TraceInv == TLCSet(tr, l)
TraceVerdict == \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t].ev) + 1 \/ PrintT(<<"STUCK", t, TLCGet(t)>>)
=============================================================================
