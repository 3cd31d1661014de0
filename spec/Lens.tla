-------------------------------- MODULE Lens --------------------------------
(* Containers and strings, and the length they report.                        *)
(*                                                                            *)
(* A container holds elements; how many it holds follows from what was put    *)
(* in and taken out, whatever its capacity, layout, sharing or the pointers   *)
(* it is reached through.  Strings hold characters, their length counts the   *)
(* bytes of the encoding; C strings end before the first zero byte.           *)
(*                                                                            *)
(*   seq   Vec, VecDeque, LinkedList, slices     text  String, str (UTF-8)    *)
(*   bag   BinaryHeap                            byte  OsString, OsStr        *)
(*   set   HashSet, BTreeSet; keys of maps       cstr  CString, CStr          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES cs     \* handle -> [kind |-> .., c |-> sequence of elements]

NoFn == [x \in {} |-> x]

Range(s) == {s[i] : i \in DOMAIN s}
Insert(s, at, x) == SubSeq(s, 1, at) \o <<x>> \o SubSeq(s, at + 1, Len(s))
Without(s, at) == SubSeq(s, 1, at) \o SubSeq(s, at + 2, Len(s))
Pos(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
MaxOf(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : y <= x

Utf8(x) == IF x < 128 THEN 1 ELSE IF x < 2048 THEN 2 ELSE IF x < 65536 THEN 3 ELSE 4

RECURSIVE Bytes(_, _)
Bytes(s, i) == IF i > Len(s) THEN 0 ELSE Utf8(s[i]) + Bytes(s, i + 1)

\* the same without deep recursion: as many bytes as there are characters above each of the three thresholds
SizeOf(kind, c) ==
  IF kind # "text" THEN Len(c)
  ELSE LET Over(t) == Cardinality({i \in DOMAIN c : c[i] >= t}) IN Len(c) + Over(128) + Over(2048) + Over(65536)
Size(o) == SizeOf(cs[o].kind, cs[o].c)

\* what a container of a kind makes of elements given one after the other
RECURSIVE Dedup(_, _)
Dedup(s, i) == IF i > Len(s) THEN <<>>
               ELSE LET r == Dedup(s, i + 1) IN IF s[i] \in Range(r) THEN r ELSE <<s[i]>> \o r
UpToNul(s) == IF 0 \in Range(s) THEN SubSeq(s, 1, (CHOOSE i \in DOMAIN s : s[i] = 0 /\ \A j \in 1..(i - 1) : s[j] # 0) - 1) ELSE s
Hold(kind, s) == CASE kind = "set" -> Dedup(s, 1) [] kind = "cstr" -> UpToNul(s) [] OTHER -> s

Put(o, c) == cs' = [cs EXCEPT ![o].c = c]
Live(o) == o \in DOMAIN cs

Make(o, kind, xs) == cs' = (o :> [kind |-> kind, c |-> Hold(kind, xs)]) @@ cs

\* one more element; `at` counts only where there is an order
Add(o, at, x) ==
  /\ Live(o)
  /\ LET k == cs[o].kind  c == cs[o].c IN
     CASE k = "set" -> Put(o, IF x \in Range(c) THEN c ELSE Append(c, x))
       [] k = "bag" -> Put(o, Append(c, x))
       [] OTHER -> at \in 0..Len(c) /\ (k = "cstr" => x # 0) /\ Put(o, Insert(c, at, x))

\* one less: by position, by element (set), or the greatest (bag)
Take(o, at) ==
  /\ Live(o)
  /\ LET k == cs[o].kind  c == cs[o].c IN
     CASE k = "set" -> Put(o, SelectSeq(c, LAMBDA y : y # at))
       [] k = "bag" -> Put(o, IF c = <<>> THEN c ELSE Without(c, Pos(c, MaxOf(c)) - 1))
       [] OTHER -> at \in 0..(Len(c) - 1) /\ Put(o, Without(c, at))

\* keep the first n, or (without an order) the elements up to n
Cut(o, n) ==
  /\ Live(o)
  /\ LET k == cs[o].kind  c == cs[o].c IN
     IF k \in {"set", "bag"} THEN Put(o, SelectSeq(c, LAMBDA y : y <= n))
     ELSE n \in 0..Len(c) /\ Put(o, SubSeq(c, 1, n))

Clear(o) == Live(o) /\ Put(o, <<>>)

\* n more elements: copies of x, or (set) x, x + 1, ..
Fill(o, x, n) ==
  /\ Live(o)
  /\ IF cs[o].kind = "set" THEN Put(o, LET S == Range(cs[o].c) IN cs[o].c \o SelectSeq([i \in 1..n |-> x + i - 1], LAMBDA y : y \notin S))
     ELSE Put(o, cs[o].c \o [i \in 1..n |-> x])

\* reserving or giving back capacity, moving, boxing, sharing: no change
Same(o) == Live(o) /\ UNCHANGED cs

Copy(o, p) == Live(o) /\ cs' = (p :> cs[o]) @@ cs

\* everything of p goes to the end of o
Absorb(o, p) ==
  /\ Live(o) /\ Live(p) /\ o # p /\ cs[o].kind = cs[p].kind
  /\ cs' = [cs EXCEPT ![o].c = IF cs[o].kind = "set" THEN Dedup(cs[o].c \o cs[p].c, 1) ELSE cs[o].c \o cs[p].c, ![p].c = <<>>]

Drop(o) == Live(o) /\ cs' = [x \in DOMAIN cs \ {o} |-> cs[x]]

\* what is reported along every way to ask: for each the length and whether it is empty
Lens(o, ns, es) ==
  /\ Live(o)
  /\ Len(ns) >= 1 /\ Len(es) = Len(ns)
  /\ LET n == Size(o) IN \A i \in DOMAIN ns : ns[i] = n /\ es[i] = (IF n = 0 THEN 1 ELSE 0)
  /\ UNCHANGED cs

\* sequences of elements without size hold any number of them: numbers as limbs of 2^24
HugeLens(limbs, ns, es) ==
  /\ Len(ns) >= 1 /\ Len(es) = Len(ns)
  /\ \A i \in DOMAIN ns : ns[i] = limbs /\ es[i] = (IF \A j \in DOMAIN limbs : limbs[j] = 0 THEN 1 ELSE 0)
  /\ UNCHANGED cs

Init == cs = NoFn

TypeOK == \A o \in DOMAIN cs :
  /\ cs[o].kind \in {"seq", "bag", "set", "text", "byte", "cstr"}
  /\ cs[o].kind = "set" => Cardinality(Range(cs[o].c)) = Len(cs[o].c)
  /\ cs[o].kind = "cstr" => 0 \notin Range(cs[o].c)
=============================================================================
