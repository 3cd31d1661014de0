-------------------------------- MODULE Layout --------------------------------
(* How the hash collections are laid out and searched: the table size search  *)
(* over the hash codes, the entries gathered slot by slot, a slot's run of    *)
(* entries scanned by a lookup.  The thresholds are constants, so that small  *)
(* ones exercise every branch.  With every size it settles on, whatever the   *)
(* codes, Layout does what Effort allows, and finds what is stored.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Codes,          \* the codes there are
          MaxN,           \* entries, at most
          MediumAt, LargeAt, MultS, MultM, MultL,   \* the analyzer's thresholds and growth limits
          Percent, Shrink,                          \* acceptable collisions, and how they shrink (in percent)
          Primes,         \* sizes considered beyond the small inputs
          Depth, Emit

VARIABLES pc,       \* "given", "sizing", "placed"
          cs,       \* the entries' codes, in the order given
          i,        \* the next size considered
          best, few, ok,   \* best size, its collisions, acceptable collisions
          order,    \* the entries in the order stored
          run,      \* slot -> [lo, hi): its entries in `order`
          looked,   \* lookups made
          last      \* what the last lookup did

lvars == <<pc, cs, i, best, few, ok, order, run, looked, last>>

N == Len(cs)
Range(s) == {s[x] : x \in DOMAIN s}

\* the entries' keys are 1..N, distinct whether or not their codes are
MaxSize == N * (IF N < MediumAt THEN MultS ELSE IF N < LargeAt THEN MultM ELSE MultL)
Ok0 == IF N < MediumAt THEN 0 ELSE (N * Percent) \div 100
MinSize == N - Ok0
Dense == MaxSize < MediumAt
Sizes == <<N>> \o (IF Dense THEN [x \in 1..(MaxSize - MinSize + 1) |-> MinSize + x - 1] ELSE Primes)
Collisions(m) == N - Cardinality({cs[x] % m : x \in DOMAIN cs})

MoreSizes == IF i > Len(Sizes) THEN FALSE ELSE Sizes[i] <= MaxSize

LInit == /\ pc = "given" /\ cs \in UNION {[1..n -> Codes] : n \in 0..MaxN}
         /\ i = 1 /\ best = 0 /\ few = Len(cs) /\ ok = 0 /\ order = <<>> /\ run = <<>> /\ looked = <<>> /\ last = [w |-> "none"]

Start == /\ pc = "given"
         /\ IF N = 0 THEN pc' = "placed" /\ best' = 1 /\ run' = [s \in {0} |-> [lo |-> 1, hi |-> 1]] /\ last' = [w |-> "build"] /\ UNCHANGED ok
            ELSE pc' = "sizing" /\ ok' = Ok0 /\ UNCHANGED <<best, run, last>>
         /\ UNCHANGED <<cs, i, few, order, looked>>

TrySize ==
  /\ pc = "sizing" /\ MoreSizes
  /\ i' = i + 1
  /\ IF Sizes[i] < MinSize THEN UNCHANGED <<best, few, ok, pc>>
     ELSE LET m == Sizes[i]  c == Collisions(m)  better == c < few IN
          /\ IF better /\ (best = 0 \/ c <= ok) THEN best' = m /\ few' = c ELSE UNCHANGED <<best, few>>
          /\ IF better /\ c <= ok THEN pc' = "sized" /\ UNCHANGED ok
             ELSE pc' = pc /\ ok' = IF ok > 0 THEN (ok * Shrink) \div 100 ELSE ok
  /\ UNCHANGED <<cs, order, run, looked, last>>

GiveUp == /\ pc = "sizing" /\ ~MoreSizes
          /\ pc' = "sized" /\ UNCHANGED <<cs, i, best, few, ok, order, run, looked, last>>

\* the entries of the highest slot first; those of one slot in any order (here: as given, or reversed)
RECURSIVE Gather(_, _)
Gather(s, rev) == IF s < 0 THEN <<>>
             ELSE LET here == SelectSeq([x \in 1..N |-> IF rev THEN N + 1 - x ELSE x], LAMBDA x : cs[x] % best = s) IN here \o Gather(s - 1, rev)
Place == /\ pc = "sized"
         /\ \E rev \in BOOLEAN : order' = Gather(best - 1, rev)
         /\ run' = [s \in 0..(best - 1) |->
              LET pos == {p \in 1..N : cs[order'[p]] % best = s} IN
              IF pos = {} THEN [lo |-> 1, hi |-> 1]
              ELSE LET a == CHOOSE p \in pos : \A q \in pos : p <= q IN [lo |-> a, hi |-> a + Cardinality(pos)]]
         /\ pc' = "placed" /\ last' = [w |-> "build"]
         /\ UNCHANGED <<cs, i, best, few, ok, looked>>

\* looking for a stored key (by its number), or for another key with some code
Search(code, want) ==
  LET r == run[code % best]
      hit == {p \in r.lo..(r.hi - 1) : order[p] = want}
      upto == IF hit = {} THEN r.hi - 1 ELSE CHOOSE p \in hit : TRUE IN
  [found |-> hit # {}, cmp |-> [x \in 1..(upto - r.lo + 1) |-> <<1, order[r.lo + x - 1]>>]]

Lookup == /\ pc = "placed" /\ Len(looked) < Depth
          /\ \E want \in 0..N : \E code \in (IF want = 0 THEN Codes ELSE {cs[want]}) :
               LET s == Search(code, want) IN
               /\ last' = [w |-> "look", code |-> code, want |-> want, found |-> s.found, cmp |-> s.cmp]
               /\ looked' = Append(looked, [c |-> code, k |-> want])
          /\ UNCHANGED <<pc, cs, i, best, few, ok, order, run>>

LNext == Start \/ TrySize \/ GiveUp \/ Place \/ Lookup
LSpec == LInit /\ [][LNext]_lvars

-----------------------------------------------------------------------------
\* Effort, with the table in plain sight
Digit(c) == <<c>>
E == INSTANCE Effort WITH MaxPer <- (IF MultS > MultM THEN MultS ELSE MultM), Slack <- (IF Percent = 0 THEN 1000 ELSE 100 \div Percent), ScanLimit <- 0,
       kind <- IF pc = "placed" THEN "hash" ELSE "none",
       codes <- IF pc = "placed" THEN [x \in DOMAIN cs |-> Digit(cs[x])] ELSE <<>>,
       sizes <- IF pc = "placed" THEN {best} ELSE {}
EffortNext == \/ last'.w = "build" /\ E!Build("hash", [x \in DOMAIN cs |-> Digit(cs[x])], best', {best'})
              \/ last'.w = "look" /\ E!Look(<<Digit(last'.code)>>, 1, last'.cmp)
Refines == E!EInit /\ [][EffortNext]_<<E!evars>>

\* the layout is one: every entry is stored once, in the run of its slot, and the runs do not overlap
Placed == pc = "placed" /\ N > 0 =>
  /\ Range(order) = 1..N /\ Len(order) = N
  /\ \A s \in DOMAIN run : \A p \in run[s].lo..(run[s].hi - 1) : cs[order[p]] % best = s
  /\ \A p \in 1..N : LET r == run[cs[order[p]] % best] IN p \in r.lo..(r.hi - 1)
\* a lookup finds a key exactly if it is stored
Right == last.w = "look" => (last.found <=> last.want # 0)
\* no collision is left standing when a size without any was considered
Fair == pc = "placed" /\ N > 0 =>
  /\ few = Collisions(best)
  /\ few > 0 /\ Dense => \A m \in MinSize..MaxSize : Collisions(m) > 0
NoEmptyTable == pc = "placed" => best >= 1

EmitInv == (Emit /\ pc = "placed" /\ Len(looked) = Depth) => PrintT("HIST " \o ToJson(<<[op |-> "keys", cs |-> cs]>> \o looked))
=============================================================================
