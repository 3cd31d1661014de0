----------------------------- MODULE FrozenTrace -----------------------------
(* Trace validation: every line of the trace file is one recorded scenario,   *)
(* {"ev": [event, ...]}.  A scenario is a behaviour of Frozen iff every event *)
(* is matched by the action of the same name with the recorded arguments and  *)
(* result.  An event nothing matches (including "panic", "crash" and "hang",  *)
(* which no action of the contract produces) leaves the trace spec stuck      *)
(* before the end of that scenario: that is the rejection.                    *)
EXTENDS Frozen, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tr, l

Ev == Traces[tr].ev[l]

Bool(x) == x = 1

Match(e) ==
  CASE e.op = "build" ->
         IF "pay" \in DOMAIN e
         THEN Build(e.o, e.t, e.pay, e.lim, Bool(e.rng), e.r)
         ELSE BuildInterval(e.o, e.t, e.lo, e.hi, e.lim, Bool(e.rng), e.r)
    [] e.op = "get"    -> Lookup(e.o, e.via, e.ks, e.rs)
    [] e.op = "gall"   -> LookupAll(e.o, e.via, e.rs)
    [] e.op = "len"    -> LenOf(e.o, e.n, e.e)
    [] e.op = "set"    -> Write(e.o, e.via, e.k, e.v, e.r)
    [] e.op = "many"   -> Many(e.o, e.ks, e.ws, e.ok, e.olds, e.re)
    [] e.op = "iter"   -> IterAll(e.o, e.via, e.ks, e.vs)
    [] e.op = "inew"   -> IterNew(e.i, e.o, e.via)
    [] e.op = "icomb"  -> CombNew(e.i, e.kind, e.a, e.b)
    [] e.op = "inext"  -> IterNext(e.i, e.k, e.v)
    [] e.op = "inth"   -> IterNth(e.i, e.m, e.k, e.v)
    [] e.op = "ihint"  -> IterHint(e.i, e.lo, e.hi)
    [] e.op = "ilen"   -> IterLen(e.i, e.n)
    [] e.op = "icnt"   -> IterCount(e.i, e.n)
    [] e.op = "ifold"  -> IterFold(e.i, e.ks, e.vs)
    [] e.op = "ilast"  -> IterLast(e.i, e.k, e.v)
    [] e.op = "iclone" -> IterClone(e.i, e.j)
    [] e.op = "idrop"  -> IterDrop(e.i)
    [] e.op = "eq"     -> Equal(e.a, e.b, e.r, e.ne)
    [] e.op = "rel"    -> Related(e.a, e.b, e.rel, e.r)
    [] e.op = "sop"    -> Combined(e.a, e.b, e.kind, e.ks)
    [] e.op = "share"  -> Shared(e.o, e.sync)
    [] e.op = "clone"  -> Clone(e.o, e.p)
    [] e.op = "assign" -> Assign(e.o, e.p)
    [] e.op = "drop"   -> Drop(e.o)
    [] OTHER           -> FALSE

TraceInit == Init /\ l = 1 /\ tr \in DOMAIN Traces

Done == l = Len(Traces[tr].ev) + 1

Step ==
  /\ ~Done
  /\ Match(Ev)
  /\ l' = l + 1
  /\ tr' = tr

TraceSpec == TraceInit /\ [][Step]_<<vars, tr, l>>

\* register t is how far trace t got.  TypeOK is an invariant of the actions
\* (checked on the model): for large collections it costs more than the rest
Small == \A o \in DOMAIN objs : Cardinality(Keys(o)) <= 200
TraceInv == (Small => TypeOK) /\ TLCSet(tr, l)

\* the verdict: names every trace which is not a behaviour, and its first
\* event which the specification does not allow
TraceVerdict ==
  \A t \in DOMAIN Traces :
    TLCGet(t) = Len(Traces[t].ev) + 1 \/ PrintT(<<"STUCK", t, TLCGet(t)>>)
=============================================================================
