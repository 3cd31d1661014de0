-------------------------------- MODULE Effort --------------------------------
(* What a lookup may cost.                                                    *)
(*                                                                            *)
(* A collection of n entries may be any table of `lo`..`hi` slots in which    *)
(* the entry with code c lies in slot c % slots.  The table itself is not     *)
(* seen: `sizes` are the sizes not yet ruled out by what lookups did.  Codes  *)
(* are sequences of 16 bit digits, the most significant first.                *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxPer,     \* slots per entry, at most
          Slack,      \* a table may have 1/Slack fewer slots than entries
          ScanLimit   \* collections of so few entries need not be tables

VARIABLES kind,     \* "none", "hash", "scan" (compares with every entry), "auto" (chooses for itself), "blind" (its codes are not known)
          codes,    \* entry -> hash code
          sizes     \* the possible numbers of slots

evars == <<kind, codes, sizes>>

Base == 65536
RECURSIVE ModFrom(_, _, _, _)
ModFrom(c, i, m, acc) == IF i > Len(c) THEN acc ELSE ModFrom(c, i + 1, m, (acc * Base + c[i]) % m)
Mod(c, m) == ModFrom(c, 1, m, 0)

\* distinct codes without a gap (all alike but for their last digit)
Consecutive(cs) ==
  LET n == Len(cs)  D == {cs[i][Len(cs[i])] : i \in DOMAIN cs} IN
  /\ n > 0
  /\ Cardinality(D) = n
  /\ Cardinality({SubSeq(cs[i], 1, Len(cs[i]) - 1) : i \in DOMAIN cs}) = 1
  /\ LET lo == CHOOSE x \in D : \A y \in D : x <= y IN D = lo..(lo + n - 1)

Lo(k, n) == IF n = 0 \/ k = "scan" \/ (k = "auto" /\ n <= ScanLimit) THEN 1 ELSE n - n \div Slack
Hi(n) == IF n = 0 THEN 1 ELSE MaxPer * n
Allowed(k, n) == Lo(k, n)..Hi(n)

EInit == kind = "none" /\ codes = <<>> /\ sizes = {}

\* room: no more slots than this fit into the memory kept
Build(k, cs, room, S) ==
  /\ room <= Hi(Len(cs)) + Len(cs)
  /\ kind' = k /\ codes' = cs
  /\ S \subseteq Allowed(k, Len(cs)) /\ S # {} /\ sizes' = S

Scanned == kind = "scan" \/ (kind = "auto" /\ Len(codes) <= ScanLimit)
Compared(cmp, p) == {cmp[i][2] : i \in {j \in DOMAIN cmp : cmp[j][1] = p}}

\* ps: the codes of the probes of one call; cmp: which probe was compared with which entry
Look(ps, hashes, cmp) ==
  /\ kind # "none"
  /\ hashes <= Len(ps)
  /\ UNCHANGED <<kind, codes>>
  /\ IF kind = "blind" THEN UNCHANGED sizes
     ELSE /\ \A i \in DOMAIN cmp : cmp[i][1] \in DOMAIN ps /\ cmp[i][2] \in DOMAIN codes
          /\ Cardinality({<<cmp[i][1], cmp[i][2]>> : i \in DOMAIN cmp}) = Len(cmp)
          /\ IF Scanned THEN UNCHANGED sizes
             ELSE LET far == {<<ps[cmp[i][1]], codes[cmp[i][2]]>> : i \in {j \in DOMAIN cmp : ps[cmp[j][1]] # codes[cmp[j][2]]}} IN
                  /\ Len(cmp) > 1 => (Consecutive(codes) => \A p \in DOMAIN ps : Cardinality(Compared(cmp, p)) <= 1)
                  /\ sizes' = IF far = {} THEN sizes ELSE {m \in sizes : \A f \in far : Mod(f[1], m) = Mod(f[2], m)}
                  /\ sizes' # {}
=============================================================================
