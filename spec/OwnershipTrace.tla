--------------------------- MODULE OwnershipTrace ---------------------------
(* Is a recorded history of keys and values a behaviour of Ownership?         *)
EXTENDS Ownership, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l
Match(e) ==
  CASE e.op = "dr" -> DropTok(e.t)
    [] e.op = "cl" -> CloneTok(e.t, e.u)
    [] e.op = "build" -> BeginBuild(e.o, e.pay)
    [] e.op = "write" -> BeginWrite(e.o, e.ks, e.vts, e.swap = 1)
    [] e.op = "clone" -> BeginClone(e.o, e.p)
    [] e.op = "assign" -> BeginAssign(e.o, e.p)
    [] e.op = "drop"  -> BeginDrop(e.o)
    [] e.op = "read"  -> BeginRead({e.os[i] : i \in DOMAIN e.os})
    [] e.op = "sop"   -> BeginSop(e.a, e.b)
    [] e.op = "into"  -> BeginInto(e.o, e.i)
    [] e.op = "iter"  -> BeginIter(e.i, e.how, e.n)
    [] e.op = "iclone" -> BeginIterClone(e.i, e.j)
    [] e.op = "ishow" -> BeginIterShow(e.i)
    [] e.op = "release" -> BeginRelease
    [] e.op = "end" ->
         CASE doing.w = "build"  -> EndBuild(e.ok = 1)
           [] doing.w = "write"  -> EndWrite(e.ok = 1, e.got)
           [] doing.w = "clone"  -> EndClone(e.ok = 1)
           [] doing.w = "assign" -> EndAssign
           [] doing.w = "drop"   -> EndDrop
           [] doing.w = "read"   -> EndRead
           [] doing.w = "sop"    -> EndSop(e.ok = 1, e.got)
           [] doing.w = "into"   -> EndInto
           [] doing.w = "iter"   -> EndIter(e.ok = 1, e.got)
           [] doing.w = "iclone" -> EndIterClone(e.ok = 1)
           [] doing.w = "release" -> EndRelease
           [] OTHER -> FALSE
    [] e.op = "holds" -> Holds(e.o, e.ents)
    [] e.op = "fin"   -> Finished(e.bytes)
    [] OTHER -> FALSE
TraceInit == OInit /\ l = 1 /\ tr \in DOMAIN Traces
Step ==
  /\ l <= Len(Traces[tr].ev)
  /\ Match(Traces[tr].ev[l])
  /\ l' = l + 1
  /\ tr' = tr
TraceSpec == TraceInit /\ [][Step]_<<ovars, tr, l>>
TraceInv == TLCSet(tr, l)
TraceVerdict == \A t \in DOMAIN Traces : TLCGet(t) = Len(Traces[t].ev) + 1 \/ PrintT(<<"STUCK", t, TLCGet(t)>>)
=============================================================================
