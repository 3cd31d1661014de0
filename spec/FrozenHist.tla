------------------------------ MODULE FrozenHist ------------------------------
(* Histories of operations on frozen collections: Frozen's actions, with the  *)
(* results the contract prescribes, plus the log of what was called and what  *)
(* it returned.                                                               *)
(*                                                                            *)
(* Exhaustive mode (Sim = FALSE): TLC visits every history up to Depth over   *)
(* small constants and checks, on the log alone, the listed properties - each *)
(* stated over the history of calls and results, independently of the state   *)
(* the actions maintain.                                                      *)
(* Generation mode (Sim = TRUE under -simulate, or exhaustive with Emit):     *)
(* complete histories are printed as JSON; the conformance harness replays    *)
(* their calls on the Rust collections and FrozenTrace judges the outcome.    *)
EXTENDS Frozen, Json, IOUtils

CONSTANTS
  Ops,      \* the operations histories are made of
  Sizes,    \* payload sizes for plain builds (keys 1..n)
  Pays,     \* explicit payloads (sequences of <<key, value>>), may repeat keys
  SetPays,  \* payloads for sets as key intervals <<lo, hi>>
  Types,    \* subset of {"map", "set"}
  Vias,     \* lookup flavours
  IVias,    \* iteration flavours
  Kinds,    \* set combinations
  MaxObj, MaxIt, Absent, Depth,
  Sim,      \* draw arguments at random instead of enumerating them
  Emit      \* print complete histories

\* the two ways of reading a payload agree
ASSUME \A n \in 0..4 : \A ks \in [1..n -> 1..3] :
         LET pay == [i \in 1..n |-> <<ks[i], 10 * ks[i] + i>>] IN LastWins(pay) = Last(pay)

VARIABLES log

hvars == <<objs, its, log>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Say(e) == log' = Append(log, e)
Quiet == UNCHANGED vars

MapsLive == {o \in DOMAIN objs : objs[o].t = "map"}
SetsLive == {o \in DOMAIN objs : objs[o].t = "set"}
Borrowed(o) == \E i \in DOMAIN its : its[i].a = o \/ its[i].b = o
Owned(o) == \E i \in DOMAIN its : its[i].kind = "own" /\ its[i].a = o
Usable == {o \in DOMAIN objs : ~Owned(o)}
Free == {o \in Usable : ~Borrowed(o)}
NewObj == LET F == (1..MaxObj) \ DOMAIN objs IN IF F = {} THEN {} ELSE {Min(F)}
NewIt == LET F == (1..MaxIt) \ DOMAIN its IN IF F = {} THEN {} ELSE {Min(F)}
Hi(o) == IF Keys(o) = {} THEN 0 ELSE Max(Keys(o))
Cand(o) == 1..(Hi(o) + Absent)
IsMap(o) == objs[o].t = "map"

ViasFor(o, V) == {v \in V : IF IsMap(o) THEN v \notin {"sget", "shas", "siter", "sref", "into", "sdbg"}
                                       ELSE v \in {"sget", "shas", "siter", "sref", "into", "sdbg"}}

HBuild ==
  /\ "build" \in Ops
  /\ \E o \in NewObj, t \in Types, n \in Pick(Sizes) :
       /\ BuildInterval(o, t, 1, n, 0, FALSE, "ok")
       /\ Say([op |-> "build", o |-> o, t |-> t, lo |-> 1, hi |-> n, lim |-> 0, rng |-> 0, r |-> "ok"])

HBuildSet ==
  /\ "builds" \in Ops
  /\ \E o \in NewObj, p \in Pick(SetPays) :
       /\ BuildInterval(o, "set", p[1], p[2], 0, FALSE, "ok")
       /\ Say([op |-> "build", o |-> o, t |-> "set", lo |-> p[1], hi |-> p[2], lim |-> 0, rng |-> 0, r |-> "ok"])

HBuildPay ==
  /\ "buildp" \in Ops
  /\ \E o \in NewObj, t \in Types, pay \in Pick(Pays) :
       LET p == IF t = "map" THEN pay ELSE [i \in DOMAIN pay |-> <<pay[i][1], pay[i][1]>>] IN
       /\ Build(o, t, p, 0, FALSE, "ok")
       /\ Say([op |-> "build", o |-> o, t |-> t, pay |-> p, lim |-> 0, rng |-> 0, r |-> "ok"])

HGet ==
  /\ "get" \in Ops
  /\ \E o \in Usable, v \in Vias :
       /\ v \in ViasFor(o, Vias)
       /\ (v \in {"gm", "im"} => o \in Free)
       /\ \E k \in Pick(Cand(o)) :
            LET a == Answer(v, o, k) IN
            /\ Lookup(o, v, <<k>>, <<a>>)
            /\ Say([op |-> "get", o |-> o, via |-> v, ks |-> <<k>>, rs |-> <<a>>])

HGetAll ==
  /\ "gall" \in Ops
  /\ \E o \in Usable, v \in Vias :
       /\ v \in ViasFor(o, Vias)
       /\ (v \in {"gm", "im"} => o \in Free)
       /\ Quiet
       /\ Say([op |-> "gall", o |-> o, via |-> v])

HLen ==
  /\ "len" \in Ops
  /\ \E o \in Usable :
       LET n == Cardinality(Keys(o))  e == IF n = 0 THEN 1 ELSE 0 IN
       /\ LenOf(o, n, e)
       /\ Say([op |-> "len", o |-> o, n |-> n, e |-> e])

\* where maps are compared, values get written which equal others, and which
\* do not equal themselves
WriteMarks == IF "eq" \in Ops THEN {0, 1, 4, 10} ELSE 0..2

HWrite ==
  /\ "set" \in Ops
  /\ \E o \in Free \cap MapsLive, v \in {"gm", "im"} :
       \E k \in Pick(Cand(o)), j \in Pick(WriteMarks) :
         LET w == k + 100000 * j
             r == IF k \in Keys(o) THEN objs[o].c[k] ELSE IF v = "im" THEN PANIC ELSE NONE
         IN /\ Write(o, v, k, w, r)
            /\ Say([op |-> "set", o |-> o, via |-> v, k |-> k, v |-> w, r |-> r])

\* request lists: present and absent keys, with and without repetitions
HMany ==
  /\ "many" \in Ops
  /\ \E o \in Free \cap MapsLive, m \in Pick(0..(IF Sim THEN 5 ELSE 2)), j \in Pick(0..2) :
       \E ks \in (IF Sim THEN {[i \in 1..m |-> RandomElement(IF RandomElement(1..12) = 1 THEN Cand(o) ELSE 1..(IF Hi(o) = 0 THEN 1 ELSE Hi(o)))]}
                  ELSE [1..m -> Cand(o)]) :
         LET ws == [i \in 1..m |-> ks[i] + 100000 * j]
             ok == IF ManyOk(o, ks) THEN 1 ELSE 0
             olds == IF ok = 1 THEN [i \in 1..m |-> objs[o].c[ks[i]]] ELSE <<>>
         IN /\ Many(o, ks, ws, ok, olds, IF ok = 1 THEN ws ELSE <<>>)
            /\ Say([op |-> "many", o |-> o, ks |-> ks, ws |-> ws, ok |-> ok, olds |-> olds])

\* the order of an iteration is the implementation's choice: in exhaustive
\* mode every order is explored, for generation any one will do
Orders(o) ==
  LET ord == objs[o].ord  n == Cardinality(Keys(o)) IN
  IF Sim THEN {<<>>}
  ELSE {s \in [1..n -> Keys(o)] : NoDup(s) /\ \A p \in DOMAIN ord : s[p] = ord[p]}

HIterAll ==
  /\ "iter" \in Ops
  /\ \E o \in Usable, v \in IVias :
       /\ v \in ViasFor(o, IVias)
       /\ (v = "into" => o \in Free)
       /\ IF Sim
          THEN /\ objs' = (IF v = "into" THEN [x \in DOMAIN objs \ {o} |-> objs[x]] ELSE objs)
               /\ UNCHANGED its
               /\ Say([op |-> "iter", o |-> o, via |-> v])
          ELSE \E s \in Orders(o) :
               LET vs == IF ShowsValues(v) THEN [p \in DOMAIN s |-> objs[o].c[s[p]]] ELSE <<>>
                   ks == IF ShowsKeys(v) THEN s ELSE <<>>
               IN /\ IterAll(o, v, ks, vs)
                  /\ Say([op |-> "iter", o |-> o, via |-> v, ks |-> ks, vs |-> vs])

HIterNew ==
  /\ "inew" \in Ops
  /\ \E i \in NewIt, o \in Usable, v \in IVias :
       /\ v \in ViasFor(o, IVias)
       /\ v \notin {"dbg", "sdbg"}
       /\ (v = "into" => o \in Free)
       /\ IterNew(i, o, v)
       /\ Say([op |-> "inew", i |-> i, o |-> o, via |-> v])

HCombNew ==
  /\ "icomb" \in Ops
  /\ \E i \in NewIt, a \in SetsLive \cap Usable, b \in SetsLive \cap Usable, k \in Kinds :
       /\ CombNew(i, k, a, b)
       /\ Say([op |-> "icomb", i |-> i, kind |-> k, a |-> a, b |-> b])

HIterNext ==
  /\ "inext" \in Ops
  /\ \E i \in DOMAIN its :
       LET it == its[i] IN
       IF ToCome(it) = 0
       THEN /\ IterNext(i, NONE, NONE)
            /\ Say([op |-> "inext", i |-> i, k |-> NONE, v |-> NONE])
       ELSE IF Sim
       THEN /\ its' = [its EXCEPT ![i].seen = Append(@, RandomElement(Rest(it)))]
            /\ UNCHANGED objs
            /\ Say([op |-> "inext", i |-> i])
       ELSE \E key \in Rest(it) :
              LET k == IF it.via = "vals" THEN NA ELSE key
                  v == IF it.via \in {"iter", "ref", "vals"} THEN objs[it.a].c[key] ELSE NA
              IN /\ IterNext(i, k, v)
                 /\ Say([op |-> "inext", i |-> i, k |-> k, v |-> v])

HIterObserve ==
  /\ "iobs" \in Ops
  /\ \E i \in DOMAIN its :
       \/ /\ Quiet /\ Say([op |-> "ihint", i |-> i, lo |-> Left(i), hi |-> Left(i)])
       \/ /\ Exact(its[i]) /\ IterLen(i, Left(i)) /\ Say([op |-> "ilen", i |-> i, n |-> Left(i)])
       \/ /\ IterCount(i, Left(i)) /\ Say([op |-> "icnt", i |-> i, n |-> Left(i)])
       \/ /\ Sim /\ Quiet /\ Say([op |-> "ifold", i |-> i])
       \/ /\ Sim /\ Quiet /\ Say([op |-> "ilast", i |-> i])

\* for generation only: which items nth(m) skips does not matter there
RECURSIVE Take(_, _)
Take(S, m) == IF m = 0 \/ S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Take(S \ {x}, m - 1)
Huge == 2000000000   \* more than there can be, near the largest number of the implementation

HIterNth ==
  /\ "inth" \in Ops
  /\ \E i \in DOMAIN its :
       LET it == its[i] IN
       IF Sim
       THEN \E m \in Pick((0..3) \union {Huge}) :
            /\ its' = [its EXCEPT ![i].seen = @ \o Take(Rest(it), m + 1)]
            /\ UNCHANGED objs
            /\ Say([op |-> "inth", i |-> i, m |-> m])
       ELSE \E m \in {0, 1, Huge}, key \in Total(it) \union {NONE} :
            LET k == IF it.via = "vals" /\ key # NONE THEN NA ELSE key
                v == IF key # NONE THEN (IF it.via \in {"iter", "ref", "vals"} THEN objs[it.a].c[key] ELSE NA) ELSE NONE
            IN /\ IterNth(i, m, k, v)
               /\ Say([op |-> "inth", i |-> i, m |-> m, k |-> k, v |-> v])

HIterClone ==
  /\ "iclone" \in Ops
  /\ \E i \in DOMAIN its, j \in NewIt :
       /\ its[i].kind # "own"
       /\ IterClone(i, j)
       /\ Say([op |-> "iclone", i |-> i, j |-> j])

HIterDrop ==
  /\ "idrop" \in Ops
  /\ \E i \in DOMAIN its : IterDrop(i) /\ Say([op |-> "idrop", i |-> i])

HEqual ==
  /\ "eq" \in Ops
  /\ \E a \in Usable, b \in Usable :
       /\ objs[a].t = objs[b].t
       /\ LET r == IF SameContents(a, b) THEN 1 ELSE 0 IN
          /\ Equal(a, b, r, 1 - r)
          /\ Say([op |-> "eq", a |-> a, b |-> b, r |-> r])

HRel ==
  /\ "rel" \in Ops
  /\ \E a \in SetsLive \cap Usable, b \in SetsLive \cap Usable, rel \in {"sub", "sup", "dis", "eq"} :
       LET r == IF Relation(rel, Keys(a), Keys(b)) THEN 1 ELSE 0 IN
       /\ Related(a, b, rel, r)
       /\ Say([op |-> "rel", a |-> a, b |-> b, rel |-> rel, r |-> r])

HSetOp ==
  /\ "sop" \in Ops
  /\ \E a \in SetsLive \cap Usable, b \in SetsLive \cap Usable, k \in Kinds, f \in {"lazy", "oper"} :
       /\ Quiet
       /\ Say([op |-> "sop", a |-> a, b |-> b, kind |-> k, form |-> f,
               res |-> IF Sim THEN {} ELSE Combine(k, Keys(a), Keys(b))])

HClone ==
  /\ "clone" \in Ops
  /\ \E o \in Usable, p \in NewObj : Clone(o, p) /\ Say([op |-> "clone", o |-> o, p |-> p])

HAssign ==
  /\ "assign" \in Ops
  /\ \E o \in Usable, p \in Free : Assign(o, p) /\ Say([op |-> "assign", o |-> o, p |-> p])

HDrop ==
  /\ "drop" \in Ops
  /\ \E o \in Free : Drop(o) /\ Say([op |-> "drop", o |-> o])

HInit == Init /\ log = <<>>

HStep ==
  \/ HBuild \/ HBuildSet \/ HBuildPay
  \/ HGet \/ HGetAll \/ HLen
  \/ HWrite \/ HMany
  \/ HIterAll \/ HIterNew \/ HCombNew \/ HIterNext \/ HIterObserve \/ HIterNth \/ HIterClone \/ HIterDrop
  \/ HEqual \/ HRel \/ HSetOp
  \/ HClone \/ HAssign \/ HDrop

HNext == Len(log) < Depth /\ HStep

HSpec == HInit /\ [][HNext]_hvars

\* in generation mode: print each complete history (from an invariant)
EmitInv == (Emit /\ Len(log) = Depth) => PrintT("HIST " \o ToJson(log))

-------------------------------------------------------------------------------
(* The listed properties, over the history of calls and results               *)

IsBuild(e, o) == e.op = "build" /\ e.o = o
IsClone(e, o) == e.op \in {"clone", "assign"} /\ e.p = o   \* o becomes a copy
IsWrite(e, o, k) == e.op = "set" /\ e.o = o /\ e.k = k /\ e.r >= 0
IsMany(e, o, k)  == e.op = "many" /\ e.o = o /\ e.ok = 1 /\ \E i \in DOMAIN e.ks : e.ks[i] = k

\* what a standard map holds under k after inserting a payload entry by entry
RECURSIVE Inserted(_, _, _)
Inserted(pay, k, p) == IF p = 0 THEN NONE
                       ELSE IF pay[p][1] = k THEN pay[p][2] ELSE Inserted(pay, k, p - 1)

Supplied(e, k) == IF "pay" \in DOMAIN e THEN Inserted(e.pay, k, Len(e.pay))
                  ELSE IF k \in e.lo..e.hi THEN k ELSE NONE

\* the value of k in o just before log position p: the last write to it, or
\* the value it was built with, following clones back to their originals
RECURSIVE Past(_, _, _)
Past(o, k, p) ==
  LET Q == {q \in 1..(p - 1) : IsBuild(log[q], o) \/ IsClone(log[q], o)
                               \/ IsWrite(log[q], o, k) \/ IsMany(log[q], o, k)} IN
  IF Q = {} THEN NONE
  ELSE LET q == Max(Q)  e == log[q] IN
       IF IsBuild(e, o) THEN Supplied(e, k)
       ELSE IF IsClone(e, o) THEN Past(e.o, k, q)
       ELSE IF e.op = "set" THEN e.v
       ELSE e.ws[CHOOSE i \in DOMAIN e.ks : e.ks[i] = k]

U == 1..(Max({0} \union Sizes \union UNION {{p[i][1] : i \in DOMAIN p} : p \in Pays} \union {p[2] : p \in SetPays}) + Absent + 3)
PastKeys(o, p) == {k \in U : Past(o, k, p) # NONE}

Here == Len(log)   \* only the newest entry needs judging: older ones were, in earlier states
Newest == log[Here]
Judge(op) == Here > 0 /\ Newest.op = op

\* C01 / C03 / C07 / C11 / C12: a read returns the last value written, or the
\* value supplied last at construction, of that very collection's lineage
ReadsExact ==
  Judge("get") =>
    \A i \in DOMAIN Newest.ks :
      LET w == Past(Newest.o, Newest.ks[i], Here)  r == Newest.rs[i]  v == Newest.via IN
      IF w = NONE
      THEN r = (CASE v \in {"get", "gm", "sget"} -> NONE [] v = "gkv" -> <<NONE, NONE>>
                  [] v \in {"has", "shas"} -> 0 [] OTHER -> PANIC)
      ELSE r = (CASE v \in {"has", "shas"} -> 1 [] v = "gkv" -> <<Newest.ks[i], w>> [] OTHER -> w)

\* C03: a write finds the last value; an attempt on an absent key has no effect
WritesExact ==
  Judge("set") =>
    LET w == Past(Newest.o, Newest.k, Here) IN
    Newest.r = (IF w = NONE THEN (IF Newest.via = "im" THEN PANIC ELSE NONE) ELSE w)

\* C03 / C05: no operation but building or cloning changes a collection's keys
KeysFrozen ==
  [][\A o \in DOMAIN objs : o \in DOMAIN objs' => (DOMAIN objs[o].c = DOMAIN objs'[o].c \/ IsClone(log'[Len(log')], o))]_hvars

\* C03: a step changes values only of keys it writes, and of one collection
WritesLocal ==
  [][\A o \in DOMAIN objs : o \in DOMAIN objs' =>
       \A k \in DOMAIN objs[o].c \ (IF IsClone(log'[Len(log')], o) THEN DOMAIN objs[o].c ELSE {}) :
         objs'[o].c[k] # objs[o].c[k] =>
           LET e == log'[Len(log')] IN
           \/ e.op = "set" /\ e.o = o /\ e.k = k
           \/ e.op = "many" /\ e.o = o /\ \E i \in DOMAIN e.ks : e.ks[i] = k]_hvars

\* C18: operations which only read change nothing
ReadsPure ==
  [][log'[Len(log')].op \in {"get", "gall", "len", "eq", "rel", "sop", "iter", "ihint", "ilen", "icnt"}
       => \A o \in DOMAIN objs : o \in DOMAIN objs' => objs'[o].c = objs[o].c]_hvars

\* C04
ManyAllOrNothing ==
  Judge("many") =>
    LET ks == Newest.ks
        good == /\ \A i, j \in DOMAIN ks : i # j => ks[i] # ks[j]
                /\ \A i \in DOMAIN ks : Past(Newest.o, ks[i], Here) # NONE
    IN /\ (Newest.ok = 1) <=> good
       /\ good => \A i \in DOMAIN ks : Newest.olds[i] = Past(Newest.o, ks[i], Here)

\* C05: lengths and complete iterations agree with the contents, and all
\* iterations of one collection show the keys in the same order
LenExact == Judge("len") =>
    /\ Newest.n = Cardinality(PastKeys(Newest.o, Here))
    /\ (Newest.e = 1) <=> (Newest.n = 0)

Root(o, p) == \* the object whose construction o's lineage goes back to, as a log position
  LET RECURSIVE R(_, _)
      R(x, q) == LET Q == {z \in 1..(q - 1) : IsBuild(log[z], x) \/ IsClone(log[z], x)}
                     m == Max(Q)
                 IN IF IsBuild(log[m], x) THEN m ELSE R(log[m].o, m)
  IN R(o, p)

\* does an event at q, on object x, lie in the lineage of o as seen from p?
\* (same object and no rebuild of x between q and p)
SameLife(o, q, p) == ~\E z \in (q + 1)..(p - 1) : IsBuild(log[z], o) \/ IsClone(log[z], o)

IterationsAgree ==
  Judge("iter") =>
    /\ ShowsKeys(Newest.via) =>
         /\ Cardinality(Range(Newest.ks)) = Len(Newest.ks)
         /\ Range(Newest.ks) = PastKeys(Newest.o, Here)
         /\ \A q \in 1..(Here - 1) :
              (log[q].op = "iter" /\ log[q].o = Newest.o /\ SameLife(Newest.o, q, Here) /\ ShowsKeys(log[q].via))
                => log[q].ks = Newest.ks
    /\ (ShowsKeys(Newest.via) /\ ShowsValues(Newest.via)) =>
         \A p \in DOMAIN Newest.ks : Newest.vs[p] = Past(Newest.o, Newest.ks[p], Here)

\* C06: an exhausted iterator stays exhausted; what it announced is what came
ItLife(i, q, p) == ~\E z \in (q + 1)..(p - 1) :
      \/ log[z].op \in {"inew", "icomb"} /\ log[z].i = i
      \/ log[z].op = "iclone" /\ log[z].j = i
Shows(e) == e.op \in {"inext", "inth"}
Nothing(e) == Shows(e) /\ e.k = NONE /\ e.v = NONE
\* items taken from i by the log entries q..p
RECURSIVE ItemsBetween(_, _, _)
ItemsBetween(i, q, p) == IF q > p THEN 0
  ELSE ItemsBetween(i, q, p - 1) + (IF Shows(log[p]) /\ log[p].i = i /\ ~Nothing(log[p]) THEN (IF log[p].op = "inth" THEN log[p].m ELSE 0) + 1 ELSE 0)
\* the items to come after entry q (an announcement) were between lo and hi
Announced(q, lo, hi) == CASE log[q].op = "ihint" -> lo <= log[q].hi /\ log[q].lo <= hi
                          [] log[q].op \in {"ilen", "icnt"} -> lo <= log[q].n /\ log[q].n <= hi
                          [] OTHER -> Nothing(log[q]) => lo = 0
IteratorContract ==
  (Here > 0 /\ Nothing(Newest)) =>
     LET i == Newest.i
         passed == IF Newest.op = "inth" THEN Newest.m ELSE 0   \* at most so many went by unseen
     IN
     \A q \in 1..(Here - 1) :
       (log[q].op \in {"ihint", "ilen", "icnt", "inext", "inth"} /\ log[q].i = i /\ ItLife(i, q, Here)
        /\ ~\E z \in (q + 1)..(Here - 1) : Nothing(log[z]) /\ log[z].i = i) =>
         LET m == ItemsBetween(i, q + 1, Here) IN Announced(q, m, m + passed)
\* C06: once nothing came, nothing comes
IteratorFused ==
  (Here > 0 /\ Shows(Newest) /\ ~Nothing(Newest)) =>
     ~\E q \in 1..(Here - 1) : Nothing(log[q]) /\ log[q].i = Newest.i /\ ItLife(Newest.i, q, Here)

\* C06: no element is shown twice by one iterator
IteratorNoRepeat ==
  (Here > 0 /\ Shows(Newest) /\ Newest.k >= 0) =>
     ~\E q \in 1..(Here - 1) : /\ Shows(log[q]) /\ log[q].i = Newest.i /\ log[q].k = Newest.k
                               /\ ItLife(Newest.i, q, Here)

\* C08 / C09: element by element
CombinationsExact ==
  Judge("sop") =>
    \A k \in U :
      LET a == Past(Newest.a, k, Here) # NONE  b == Past(Newest.b, k, Here) # NONE IN
      (k \in Newest.res) <=> (CASE Newest.kind = "un" -> a \/ b [] Newest.kind = "in" -> a /\ b
                                [] Newest.kind = "di" -> a /\ ~b [] Newest.kind = "sd" -> a # b)
RelationsExact ==
  Judge("rel") =>
    LET ina(k) == Past(Newest.a, k, Here) # NONE  inb(k) == Past(Newest.b, k, Here) # NONE IN
    (Newest.r = 1) <=> (\A k \in U : CASE Newest.rel = "sub" -> ina(k) => inb(k)
                                       [] Newest.rel = "sup" -> inb(k) => ina(k)
                                       [] Newest.rel = "dis" -> ~(ina(k) /\ inb(k))
                                       [] Newest.rel = "eq"  -> ina(k) <=> inb(k))

\* C09 / C10
EqualityExtensional ==
  Judge("eq") =>
    ((Newest.r = 1) <=>
       \A k \in U : LET v == Past(Newest.a, k, Here)  w == Past(Newest.b, k, Here) IN
                      \/ v = NONE /\ w = NONE
                      \/ v # NONE /\ w # NONE /\ \E d \in {-Twin, 0, Twin} : v + d = w /\ {v, w} \cap Strange..(Strange + 1000) = {})

HistoryProps ==
  /\ ReadsExact /\ WritesExact /\ ManyAllOrNothing /\ LenExact /\ IterationsAgree
  /\ IteratorContract /\ IteratorFused /\ IteratorNoRepeat /\ CombinationsExact /\ RelationsExact
  /\ EqualityExtensional
=============================================================================
