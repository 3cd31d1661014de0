------------------------------- MODULE Frozen -------------------------------
(* The contract of frozen collections, as a state machine over abstract keys *)
(* (natural numbers) and values (integers).                                  *)
(*                                                                           *)
(* One action per public operation; every action takes the arguments of the  *)
(* call AND its observed result, and is enabled exactly when the contract    *)
(* allows that result in the current state.  The same actions are used       *)
(*   - by FrozenHist, which explores / generates histories of operations     *)
(*     and checks the listed properties on them, and                         *)
(*   - by FrozenTrace, which decides whether behaviour recorded from the     *)
(*     Rust implementation is a behaviour of this specification.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  objs,   \* object id -> [t, c, ord]
          \*    t   : "map" or "set"
          \*    c   : contents, a function from the keys to their values
          \*          (for sets the value of a key is the key itself)
          \*    ord : the iteration order as far as it has been revealed,
          \*          a sequence of distinct keys of c
  its     \* iterator id -> [kind, via, a, b, seen, skip, cap]

vars == <<objs, its>>

NONE  == -1   \* the result "absent"
PANIC == -2   \* the operation panicked
NA    == -3   \* "this iterator does not show that component"

Empty == [x \in {} |-> 0]
Init == objs = Empty /\ its = Empty

\* evaluate P as one boolean expression (rather than conjunct by conjunct)
Holds(P) == P = TRUE

Range(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Range(s)) = Len(s)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

Live(o) == o \in DOMAIN objs
Keys(o) == DOMAIN objs[o].c

(***************************************************************************)
(* Construction                                                            *)
(***************************************************************************)
\* The contents a payload (a sequence of <<key, value>>) stands for: the last
\* value supplied for a key wins.
Last(pay) ==
  [k \in {pay[i][1] : i \in DOMAIN pay} |->
      pay[Max({i \in DOMAIN pay : pay[i][1] = k})][2]]

\* The same for a payload starting with the m keys 1..m in order, to which its
\* remaining entries only give new values: in one pass (FrozenHist checks that
\* the two agree; large payloads are of this kind)
Orderly(pay, m) == \A p \in DOMAIN pay : IF p <= m THEN pay[p][1] = p ELSE pay[p][1] \in 1..m
RECURSIVE Overwrite(_, _, _)
Overwrite(c, pay, p) == IF p > Len(pay) THEN c ELSE Overwrite([c EXCEPT ![pay[p][1]] = pay[p][2]], pay, p + 1)
OrderlyLast(pay, m) == Overwrite([p \in 1..m |-> pay[p][2]], pay, m + 1)

LastWins(pay) ==
  LET m == Cardinality({pay[i][1] : i \in DOMAIN pay})
  IN IF Len(pay) - m <= 20 /\ Orderly(pay, m) THEN OrderlyLast(pay, m) ELSE Last(pay)

\* The payload lo..hi with every key carrying itself as its value
Interval(lo, hi) == [k \in lo..hi |-> k]

\* Does a collection limited to `lim` entries (0: unlimited), which if `rng`
\* is set wants distinct contiguous keys, accept `n` entries over keys `ks`?
Accepts(n, ks, lim, rng) ==
  /\ lim > 0 => n <= lim
  /\ (rng /\ ks # {}) => (Cardinality(ks) = n /\ Max(ks) - Min(ks) + 1 = n)

BuildFrom(o, t, n, c, lim, rng, r) ==
  /\ r = (IF Accepts(n, DOMAIN c, lim, rng) THEN "ok" ELSE "panic")
  /\ objs' = (IF r = "ok" THEN (o :> [t |-> t, c |-> c, ord |-> <<>>]) @@ objs
                          ELSE objs)
  /\ UNCHANGED its

Build(o, t, pay, lim, rng, r) ==
  BuildFrom(o, t, Len(pay), LastWins(pay), lim, rng, r)

BuildInterval(o, t, lo, hi, lim, rng, r) ==
  BuildFrom(o, t, (IF hi < lo THEN 0 ELSE hi - lo + 1), Interval(lo, hi), lim, rng, r)

(***************************************************************************)
(* Reads                                                                   *)
(***************************************************************************)
Val(o, k) == IF k \in Keys(o) THEN objs[o].c[k] ELSE NONE

Answer(via, o, k) ==
  CASE via \in {"get", "gm", "sget"} -> Val(o, k)
    [] via = "gkv" -> IF k \in Keys(o) THEN <<k, objs[o].c[k]>> ELSE <<NONE, NONE>>
    [] via \in {"has", "shas"} -> IF k \in Keys(o) THEN 1 ELSE 0
    [] via \in {"idx", "im"} -> IF k \in Keys(o) THEN objs[o].c[k] ELSE PANIC

Lookup(o, via, ks, rs) ==
  /\ Live(o)
  /\ Len(rs) = Len(ks)
  /\ Holds(\A i \in DOMAIN ks : rs[i] = Answer(via, o, ks[i]))
  /\ UNCHANGED vars

\* the keys 1..Len(rs) are looked up, in order
LookupAll(o, via, rs) ==
  /\ Live(o)
  /\ Holds(\A k \in DOMAIN rs : rs[k] = Answer(via, o, k))
  /\ UNCHANGED vars

\* a collection may be shared between threads (its type is Sync)
Shared(o, sync) == Live(o) /\ sync = 1 /\ UNCHANGED vars

LenOf(o, n, e) ==
  /\ Live(o)
  /\ n = Cardinality(Keys(o))
  /\ e = (IF n = 0 THEN 1 ELSE 0)
  /\ UNCHANGED vars

(***************************************************************************)
(* Updates                                                                 *)
(***************************************************************************)
\* write v to k through get_mut ("gm") or mutable indexing ("im"); r is the
\* value found there before
Write(o, via, k, v, r) ==
  /\ Live(o)
  /\ r = (IF k \in Keys(o) THEN objs[o].c[k]
          ELSE IF via = "im" THEN PANIC ELSE NONE)
  /\ objs' = (IF k \in Keys(o) THEN [objs EXCEPT ![o].c[k] = v] ELSE objs)
  /\ UNCHANGED its

\* get_many_mut(ks); if it succeeds: `olds` is what the references show first,
\* then ws[i] is written through the i-th one, and `re` is what they all show
\* after all the writes.
ManyOk(o, ks) == NoDup(ks) /\ Range(ks) \subseteq Keys(o)

Many(o, ks, ws, ok, olds, re) ==
  /\ Live(o)
  /\ ok = (IF ManyOk(o, ks) THEN 1 ELSE 0)
  /\ IF ok = 1
     THEN /\ olds = [i \in DOMAIN ks |-> objs[o].c[ks[i]]]
          /\ re = ws
          /\ objs' = [objs EXCEPT ![o].c =
                [k \in Keys(o) |-> IF k \in Range(ks)
                                   THEN ws[CHOOSE i \in DOMAIN ks : ks[i] = k]
                                   ELSE objs[o].c[k]]]
     ELSE UNCHANGED objs
  /\ UNCHANGED its

(***************************************************************************)
(* Whole iterations                                                        *)
(***************************************************************************)
ShowsKeys(via)   == via \in {"iter", "ref", "keys", "siter", "sref", "into", "dbg", "sdbg"}
ShowsValues(via) == via \in {"iter", "ref", "vals", "dbg"}

Permutation(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S

\* a complete iteration showing the keys ks and/or the values vs
IterAll(o, via, ks, vs) ==
  /\ Live(o)
  /\ LET ord == objs[o].ord
         known == Len(ord) = Cardinality(Keys(o))
     IN  /\ Holds(ShowsKeys(via) =>
              /\ IF known THEN ks = ord
                          ELSE /\ Permutation(ks, Keys(o))
                               /\ \A p \in DOMAIN ord : ks[p] = ord[p]
              /\ ShowsValues(via) =>
                   /\ Len(vs) = Len(ks)
                   /\ \A p \in DOMAIN ks : vs[p] = objs[o].c[ks[p]])
         /\ Holds((ShowsValues(via) /\ ~ShowsKeys(via)) =>
              IF known THEN vs = [p \in DOMAIN ord |-> objs[o].c[ord[p]]]
              \* values only: the values of one map are kept distinct by
              \* construction of the histories, so this is a permutation too
              ELSE /\ Permutation(vs, {objs[o].c[k] : k \in Keys(o)})
                   /\ \A p \in DOMAIN ord : vs[p] = objs[o].c[ord[p]])
         /\ objs' = (IF via = "into"
                     THEN [x \in DOMAIN objs \ {o} |-> objs[x]]
                     ELSE IF ShowsKeys(via) /\ ~known
                     THEN [objs EXCEPT ![o].ord = ks]
                     ELSE objs)
  /\ UNCHANGED its

(***************************************************************************)
(* Iterators, step by step                                                 *)
(***************************************************************************)
\* What an iterator will have produced when it is exhausted
Combine(kind, A, B) ==
  CASE kind = "un" -> A \union B
    [] kind = "in" -> A \intersect B
    [] kind = "di" -> A \ B
    [] kind = "sd" -> (A \ B) \union (B \ A)

Total(it) == CASE it.kind \in {"col", "own"} -> it.cap
               [] OTHER -> Combine(it.kind, Keys(it.a), Keys(it.b))

Rest(it) == Total(it) \ Range(it.seen)
\* how many are still to come: `skip` of the rest were passed over unseen
\* (Cardinality(Rest(it)) - it.skip, for what was seen is part of the total: TypeOK)
ToCome(it) == Cardinality(Total(it)) - Len(it.seen) - it.skip
Left(i) == ToCome(its[i])

\* an iterator over one collection; "into" iterators take the collection over
IterNew(i, o, via) ==
  /\ Live(o)
  /\ its' = (i :> [kind |-> IF via = "into" THEN "own" ELSE "col", via |-> via, a |-> o, b |-> o,
                   seen |-> <<>>, skip |-> 0, cap |-> Keys(o)]) @@ its
  /\ UNCHANGED objs

CombNew(i, kind, a, b) ==
  /\ Live(a) /\ Live(b)
  /\ its' = (i :> [kind |-> kind, via |-> "siter", a |-> a, b |-> b,
                   seen |-> <<>>, skip |-> 0, cap |-> {}]) @@ its
  /\ UNCHANGED objs

\* the key an iterator over one collection shows with this step's components
Shown(it, k, v) ==
  IF it.via = "vals"
  THEN CHOOSE x \in {y \in Rest(it) : objs[it.a].c[y] = v} : TRUE
  ELSE k

ShowOk(it, k, v) ==
  IF it.via = "vals"
  THEN k = NA /\ \E y \in Rest(it) : objs[it.a].c[y] = v
  ELSE /\ k \in Rest(it)
       /\ v = (IF it.via \in {"iter", "ref"} THEN objs[it.a].c[k] ELSE NA)

OrderOk(it, k) ==
  it.kind \in {"col", "own"} =>
    LET ord == objs[it.a].ord  p == Len(it.seen) + 1
    IN  IF p <= Len(ord) THEN ord[p] = k ELSE k \notin Range(ord)

Reveal(it, k) ==
  IF it.kind \in {"col", "own"} /\ Len(it.seen) = Len(objs[it.a].ord)
  THEN [objs EXCEPT ![it.a].ord = Append(@, k)] ELSE objs

\* next(): k = v = NONE when it reports exhaustion
IterNext(i, k, v) ==
  /\ i \in DOMAIN its
  /\ LET it == its[i] IN
     IF ToCome(it) = 0
     THEN k = NONE /\ v = NONE /\ UNCHANGED vars
     ELSE /\ ShowOk(it, k, v)
          /\ LET key == Shown(it, k, v) IN
             /\ OrderOk(it, key)
             /\ its' = [its EXCEPT ![i].seen = Append(@, key)]
             /\ objs' = Reveal(it, key)

Exact(it) == it.kind \in {"col", "own"}

\* size_hint(): hi = NONE when no upper bound is given
IterHint(i, lo, hi) ==
  /\ i \in DOMAIN its
  /\ 0 <= lo /\ lo <= Left(i)
  /\ (hi # NONE => Left(i) <= hi)
  /\ Exact(its[i]) => (lo = Left(i) /\ hi = Left(i))
  /\ UNCHANGED vars

\* len() of an iterator offering an exact length
IterLen(i, n)   == i \in DOMAIN its /\ Exact(its[i]) /\ n = Left(i) /\ UNCHANGED vars
\* count() (of a clone of the iterator, so it stays where it is)
IterCount(i, n) == i \in DOMAIN its /\ n = Left(i) /\ UNCHANGED vars

\* folding (a clone of) the rest shows the rest, in this order
IterFold(i, ks, vs) ==
  /\ i \in DOMAIN its
  /\ LET it == its[i]  ord == objs[it.a].ord  d == Len(it.seen)
         known == Exact(it) /\ Len(ord) = Cardinality(it.cap)
         n == IF it.via = "vals" THEN Len(vs) ELSE Len(ks)
         pos == 1..n
         \* the key at each position
         keys == IF it.via # "vals" THEN ks
                 ELSE [p \in pos |-> CHOOSE x \in Rest(it) : objs[it.a].c[x] = vs[p]]
         valued == it.via \in {"iter", "ref"}
     IN  /\ n = Left(i)
         /\ IF it.via = "vals" THEN ks = <<>> ELSE IF valued THEN Len(vs) = n ELSE vs = <<>>
         /\ IF known
            THEN LET rest == SubSeq(ord, d + 1, Len(ord)) IN
                 /\ it.via # "vals" => ks = rest
                 /\ (valued \/ it.via = "vals") => vs = [p \in pos |-> objs[it.a].c[rest[p]]]
                 /\ UNCHANGED objs
            ELSE /\ Holds(it.via = "vals" => \A p \in pos : \E y \in Rest(it) : objs[it.a].c[y] = vs[p])
                 /\ IF it.skip = 0 THEN Range(keys) = Rest(it) ELSE Range(keys) \subseteq Rest(it) /\ Cardinality(Range(keys)) = n
                 /\ Holds(valued => \A p \in pos : vs[p] = objs[it.a].c[ks[p]])
                 /\ Holds(Exact(it) => \A p \in pos : (d + p <= Len(ord)) => keys[p] = ord[d + p])
                 /\ objs' = IF Exact(it) THEN [objs EXCEPT ![it.a].ord = it.seen \o keys] ELSE objs
  /\ UNCHANGED its

\* clone() of an iterator: j continues independently from where i is
IterClone(i, j) ==
  /\ i \in DOMAIN its
  /\ its' = (j :> its[i]) @@ its
  /\ UNCHANGED objs

IterDrop(i) ==
  /\ i \in DOMAIN its
  /\ its' = [x \in DOMAIN its \ {i} |-> its[x]]
  /\ objs' = (IF its[i].kind = "own" THEN [x \in DOMAIN objs \ {its[i].a} |-> objs[x]] ELSE objs)

\* nth(m) on an iterator over one collection whose order is fully revealed, or
\* on a combination: m of the items to come are passed over unseen
IterNth(i, m, k, v) ==
  /\ i \in DOMAIN its
  /\ LET it == its[i] IN
     IF Exact(it)
     THEN LET ord == objs[it.a].ord  p == Len(it.seen) + m + 1  n == Cardinality(it.cap) IN
          /\ Len(ord) = n
          /\ IF p > n
             THEN k = NONE /\ v = NONE /\ its' = [its EXCEPT ![i].seen = ord]
             ELSE /\ IF it.via = "vals" THEN k = NA /\ v = objs[it.a].c[ord[p]]
                     ELSE k = ord[p] /\ v = (IF it.via \in {"iter", "ref"} THEN objs[it.a].c[k] ELSE NA)
                  /\ its' = [its EXCEPT ![i].seen = SubSeq(ord, 1, p)]
     ELSE IF m >= ToCome(it)
          THEN k = NONE /\ v = NONE /\ its' = [its EXCEPT ![i].skip = @ + ToCome(it)]
          ELSE ShowOk(it, k, v) /\ its' = [its EXCEPT ![i].skip = @ + m, ![i].seen = Append(@, k)]
  /\ UNCHANGED objs

\* last() of (a clone of) an iterator over one collection whose order is fully
\* revealed, or of a combination
IterLast(i, k, v) ==
  /\ i \in DOMAIN its
  /\ LET it == its[i] IN
     IF ToCome(it) = 0
     THEN k = NONE /\ v = NONE
     ELSE IF ~Exact(it) THEN ShowOk(it, k, v)
     ELSE LET ord == objs[it.a].ord  n == Cardinality(it.cap) IN
          /\ Len(ord) = n
          /\ IF it.via = "vals" THEN k = NA /\ v = objs[it.a].c[ord[n]]
             ELSE k = ord[n] /\ v = (IF it.via \in {"iter", "ref"} THEN objs[it.a].c[k] ELSE NA)
  /\ UNCHANGED vars

(***************************************************************************)
(* Comparisons and set algebra                                             *)
(***************************************************************************)
\* Whether values are equal is for their type to say. The values of the
\* harness come in twins which are equal although they can be told apart
\* (like 0.0 and -0.0), and the strange ones do not even equal themselves
\* (like a NaN).
Twin == 400000
Strange == 1000000
SameValue(v, w) == v < Strange /\ w < Strange /\ v % Twin = w % Twin
SameContents(a, b) ==
  /\ Keys(a) = Keys(b)
  /\ IF objs[a].t = "map" THEN \A k \in Keys(a) : SameValue(objs[a].c[k], objs[b].c[k]) ELSE TRUE

Equal(a, b, r, ne) ==
  /\ Live(a) /\ Live(b)
  /\ r = (IF SameContents(a, b) THEN 1 ELSE 0)
  /\ ne = 1 - r
  /\ UNCHANGED vars

Relation(rel, A, B) ==
  CASE rel = "sub" -> A \subseteq B
    [] rel = "sup" -> B \subseteq A
    [] rel = "dis" -> A \intersect B = {}
    [] rel = "eq"  -> A = B

Related(a, b, rel, r) ==
  /\ Live(a) /\ Live(b)
  /\ r = (IF Relation(rel, Keys(a), Keys(b)) THEN 1 ELSE 0)
  /\ UNCHANGED vars

\* the elements ks produced by a set combination (in some order)
Combined(a, b, kind, ks) ==
  /\ Live(a) /\ Live(b)
  /\ Permutation(ks, Combine(kind, Keys(a), Keys(b)))
  /\ UNCHANGED vars

(***************************************************************************)
(* Clone, drop                                                             *)
(***************************************************************************)
Clone(o, p) ==
  /\ Live(o) /\ ~Live(p)
  /\ objs' = (p :> objs[o]) @@ objs
  /\ UNCHANGED its

\* clone_from(): p becomes what o is, whatever it was
Assign(o, p) ==
  /\ Live(o) /\ Live(p) /\ o # p /\ objs[o].t = objs[p].t
  /\ objs' = [objs EXCEPT ![p] = objs[o]]
  /\ UNCHANGED its

Drop(o) ==
  /\ Live(o)
  /\ objs' = [x \in DOMAIN objs \ {o} |-> objs[x]]
  /\ UNCHANGED its

(***************************************************************************)
(* State invariants                                                        *)
(***************************************************************************)
TypeOK ==
  /\ \A o \in DOMAIN objs :
       /\ objs[o].t \in {"map", "set"}
       /\ NoDup(objs[o].ord)
       /\ Range(objs[o].ord) \subseteq Keys(o)
  /\ \A i \in DOMAIN its :
       /\ its[i].a \in DOMAIN objs /\ its[i].b \in DOMAIN objs
       /\ NoDup(its[i].seen)
       /\ Range(its[i].seen) \subseteq Total(its[i])
       /\ ToCome(its[i]) = Cardinality(Rest(its[i])) - its[i].skip /\ ToCome(its[i]) >= 0
=============================================================================
