------------------------------ MODULE Ownership ------------------------------
(* Who owns every key and value.                                              *)
(*                                                                            *)
(* A token is one key or one value instance.  It is in exactly one place:     *)
(* with the caller, in the hands of the call under way, stored in a           *)
(* collection, waiting in a consuming iterator - or gone, dropped.  Calls     *)
(* begin, drop and clone tokens while they run, and end returning or          *)
(* panicking; what a call may drop, and what must have become of the tokens   *)
(* in its hands when it ends, depends on the call.                            *)
(*                                                                            *)
(* Key token 0 stands for a key which is not a token (integers, strings);     *)
(* value token 0 for the absent value of a set.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
  at,      \* token -> its place
  who,     \* token -> [kid |-> which key, val |-> is it a value?, root |-> the token it was first cloned from]
  objs,    \* collection -> its entries: kid -> <<key token, value token>>
  its,     \* the consuming iterators
  doing    \* the call under way: [w |-> "idle"] if none

ovars == <<at, who, objs, its, doing>>

CALL == <<"call", 0>>
USER == <<"user", 0>>
GONE == <<"gone", 0>>
In(o) == <<"obj", o>>
Left(i) == <<"iter", i>>
Idle == [w |-> "idle"]
NoFn == [x \in {} |-> x]

Range(s) == {s[i] : i \in DOMAIN s}
Toks == DOMAIN at
Where(p) == {t \in Toks : at[t] = p}
Fresh(S) == S \cap Toks = {}
Put(S, p) == at' = [t \in Toks |-> IF t \in S THEN p ELSE at[t]]
Give(S, p) == [t \in Toks \cup S |-> IF t \in S THEN p ELSE at[t]]
Key(k, t) == [kid |-> k, val |-> FALSE, root |-> t]
Val(k, t) == [kid |-> k, val |-> TRUE, root |-> t]
\* the function with these pairs
SetToFn(S) == [t \in {p[1] : p \in S} |-> (CHOOSE p \in S : p[1] = t)[2]]
Stored(o) == UNION {{objs[o][k][1], objs[o][k][2]} : k \in DOMAIN objs[o]} \ {0}

OInit == at = NoFn /\ who = NoFn /\ objs = NoFn /\ its = {} /\ doing = Idle

-----------------------------------------------------------------------------
(* calls begin *)

\* the payload: <<kid, key token, value token>> in the order supplied
BeginBuild(o, pay) ==
  /\ doing = Idle /\ o \notin DOMAIN objs
  /\ LET new == ({pay[i][2] : i \in DOMAIN pay} \cup {pay[i][3] : i \in DOMAIN pay}) \ {0}
         made == UNION {(IF pay[i][2] = 0 THEN {} ELSE {<<pay[i][2], Key(pay[i][1], pay[i][2])>>})
                        \cup (IF pay[i][3] = 0 THEN {} ELSE {<<pay[i][3], Val(pay[i][1], pay[i][3])>>}) : i \in DOMAIN pay} IN
     /\ Fresh(new)
     /\ at' = Give(new, CALL)
     /\ who' = SetToFn(made) @@ who
  /\ doing' = [w |-> "build", o |-> o, pay |-> pay]
  /\ UNCHANGED <<objs, its>>

\* overwriting the values of some keys with new ones; the old value is dropped, or (swap) handed back
BeginWrite(o, kids, vts, swap) ==
  /\ doing = Idle /\ o \in DOMAIN objs
  /\ Fresh(Range(vts)) /\ Len(kids) = Len(vts) /\ Cardinality(Range(vts)) = Len(vts)
  /\ at' = Give(Range(vts), CALL)
  /\ who' = SetToFn({<<vts[i], Val(kids[i], vts[i])>> : i \in DOMAIN vts}) @@ who
  /\ doing' = [w |-> "write", o |-> o, kids |-> kids, vts |-> vts, swap |-> swap]
  /\ UNCHANGED <<objs, its>>

Begin(call) == doing = Idle /\ doing' = call /\ UNCHANGED <<at, who, objs, its>>

BeginClone(o, p) == o \in DOMAIN objs /\ p \notin DOMAIN objs /\ Begin([w |-> "clone", o |-> o, p |-> p])
BeginAssign(o, p) == {o, p} \subseteq DOMAIN objs /\ o # p /\ Begin([w |-> "assign", o |-> o, p |-> p])
BeginDrop(o) == o \in DOMAIN objs /\ Begin([w |-> "drop", o |-> o])
BeginRead(os) == os \subseteq DOMAIN objs /\ Begin([w |-> "read"])
BeginSop(a, b) == {a, b} \subseteq DOMAIN objs /\ Begin([w |-> "sop", a |-> a, b |-> b])
BeginInto(o, i) == o \in DOMAIN objs /\ i \notin its /\ Begin([w |-> "into", o |-> o, i |-> i])
BeginIter(i, how, n) == i \in its /\ Begin([w |-> "iter", i |-> i, how |-> how, n |-> n, had |-> Where(Left(i))])
BeginIterClone(i, j) == i \in its /\ j \notin its /\ Begin([w |-> "iclone", i |-> i, j |-> j])
BeginIterShow(i) == i \in its /\ Begin([w |-> "read"])
BeginRelease == Begin([w |-> "release"])

-----------------------------------------------------------------------------
(* while a call runs *)

\* the stored value tokens the call under way replaces
Replaced == {objs[doing.o][k][2] : k \in Range(doing.kids) \cap DOMAIN objs[doing.o]}

MayDrop(t) ==
  LET p == at[t] IN
  CASE p = CALL -> doing.w = "write" => \A x \in Replaced : at[x] # GONE     \* a write replaces or gives up, not both
    [] p = GONE -> FALSE
    [] p = USER -> doing.w = "release"
    [] p[1] = "obj" -> \/ doing.w = "drop" /\ doing.o = p[2]
                       \/ doing.w = "assign" /\ doing.p = p[2]
                       \/ doing.w = "write" /\ doing.o = p[2] /\ ~doing.swap /\ t \in Replaced /\ Where(CALL) = Range(doing.vts)
                          /\ Range(doing.kids) \subseteq DOMAIN objs[doing.o] /\ Cardinality(Range(doing.kids)) = Len(doing.kids)
    [] p[1] = "iter" -> doing.w = "iter" /\ doing.i = p[2] /\ doing.how # "next"

DropTok(t) ==
  /\ doing # Idle /\ t \in Toks /\ MayDrop(t)
  /\ at' = [at EXCEPT ![t] = GONE]
  /\ UNCHANGED <<who, objs, its, doing>>

CloneTok(t, u) ==
  /\ doing # Idle /\ t \in Toks /\ at[t] # GONE /\ u \notin Toks
  /\ at' = (u :> CALL) @@ at
  /\ who' = (u :> who[t]) @@ who
  /\ UNCHANGED <<objs, its, doing>>

-----------------------------------------------------------------------------
(* calls end *)

\* every token the call still had in its hands is gone
NothingHeld == Where(CALL) = {}
Done == doing' = Idle
Nothing == NothingHeld /\ Done /\ UNCHANGED <<at, who, objs, its>>

\* the token of S for key k, if there is one
The(S, k) == LET T == {t \in S : who[t].kid = k} IN IF T = {} THEN 0 ELSE CHOOSE t \in T : TRUE

\* of the entries of a repeated key one key and one value are kept (which ones is not said here)
EndBuild(ok) ==
  /\ doing.w = "build"
  /\ IF ~ok THEN Nothing
     ELSE LET pay == doing.pay
              held == Where(CALL)
              ks == {t \in held : ~who[t].val}
              vs == held \ ks
              kids == {pay[i][1] : i \in DOMAIN pay}
              ent == [k \in kids |-> <<The(ks, k), The(vs, k)>>] IN
          /\ Cardinality(ks) = Cardinality({who[t].kid : t \in ks})
          /\ Cardinality(vs) = Cardinality({who[t].kid : t \in vs})
          /\ {who[t].kid : t \in ks} = {pay[i][1] : i \in {j \in DOMAIN pay : pay[j][2] # 0}}
          /\ {who[t].kid : t \in vs} = {pay[i][1] : i \in {j \in DOMAIN pay : pay[j][3] # 0}}
          /\ objs' = (doing.o :> ent) @@ objs
          /\ Put(held, In(doing.o))
          /\ Done
          /\ UNCHANGED <<who, its>>

\* hit: the keys were found (all of them), and their values replaced
EndWrite(hit, got) ==
  /\ doing.w = "write"
  /\ LET o == doing.o IN
     IF ~hit THEN got = <<>> /\ (\A t \in Replaced : at[t] = In(o)) /\ Nothing
     ELSE LET ks == doing.kids  vts == doing.vts  old == Replaced IN
          /\ Range(ks) \subseteq DOMAIN objs[o] /\ Cardinality(Range(ks)) = Len(ks)
          /\ Where(CALL) = Range(vts)
          /\ IF doing.swap THEN Range(got) = old /\ Len(got) = Cardinality(old) /\ \A t \in old : at[t] = In(o)
             ELSE got = <<>> /\ \A t \in old : at[t] = GONE
          /\ at' = [t \in Toks |-> IF t \in Range(vts) THEN In(o) ELSE IF t \in Range(got) THEN USER ELSE at[t]]
          /\ objs' = [objs EXCEPT ![o] = [k \in DOMAIN @ |-> IF k \in Range(ks) THEN <<@[k][1], vts[CHOOSE i \in DOMAIN ks : ks[i] = k]>> ELSE @[k]]]
          /\ Done
          /\ UNCHANGED <<who, its>>

\* one clone of each of the tokens src, and nothing else, is in the hands of the call
ClonesOf(src) ==
  LET held == Where(CALL) IN
  /\ Cardinality(held) = Cardinality(src)
  /\ {who[u] : u \in held} = {who[t] : t \in src}

Twins(o) == LET held == Where(CALL)
                Twin(t) == IF t = 0 THEN 0 ELSE CHOOSE u \in held : who[u] = who[t] IN
            [k \in DOMAIN objs[o] |-> <<Twin(objs[o][k][1]), Twin(objs[o][k][2])>>]

EndClone(ok) ==
  /\ doing.w = "clone"
  /\ IF ~ok THEN Nothing
     ELSE /\ ClonesOf(Stored(doing.o))
          /\ objs' = (doing.p :> Twins(doing.o)) @@ objs
          /\ Put(Where(CALL), In(doing.p))
          /\ Done
          /\ UNCHANGED <<who, its>>

\* clone_from: what p held is dropped
EndAssign ==
  /\ doing.w = "assign"
  /\ ClonesOf(Stored(doing.o))
  /\ Where(In(doing.p)) = {}
  /\ objs' = [objs EXCEPT ![doing.p] = Twins(doing.o)]
  /\ Put(Where(CALL), In(doing.p))
  /\ Done
  /\ UNCHANGED <<who, its>>

\* dropping a collection drops everything in it, even if one of the drops panics
EndDrop ==
  /\ doing.w = "drop"
  /\ NothingHeld
  /\ Where(In(doing.o)) = {}
  /\ objs' = [o \in DOMAIN objs \ {doing.o} |-> objs[o]]
  /\ Done
  /\ UNCHANGED <<at, who, its>>

EndRead == doing.w = "read" /\ Nothing

\* a set operator hands over clones of stored elements, one of each distinct element at most
EndSop(ok, got) ==
  /\ doing.w = "sop"
  /\ IF ~ok THEN got = <<>> /\ Nothing
     ELSE /\ Where(CALL) = Range(got) /\ Cardinality(Range(got)) = Len(got)
          /\ {who[u] : u \in Range(got)} \subseteq {who[t] : t \in Stored(doing.a) \cup Stored(doing.b)}
          /\ Cardinality({who[u].kid : u \in Range(got)}) = Len(got)
          /\ Put(Range(got), USER)
          /\ Done
          /\ UNCHANGED <<who, objs, its>>

EndInto ==
  /\ doing.w = "into"
  /\ NothingHeld
  /\ Put(Where(In(doing.o)), Left(doing.i))
  /\ objs' = [o \in DOMAIN objs \ {doing.o} |-> objs[o]]
  /\ its' = its \cup {doing.i}
  /\ Done
  /\ UNCHANGED who

\* what a consuming iterator drops and what it hands out; n: how far (next, nth)
EndIter(ok, got) ==
  /\ doing.w = "iter"
  /\ NothingHeld
  /\ LET i == doing.i  had == doing.had  left == Where(Left(i))  G == Range(got)
         out == Cardinality(had) - Cardinality(left)    \* dropped by this call
         ends == doing.how \in {"drop", "count", "last", "all"} IN
     /\ G \subseteq left /\ Cardinality(G) = Len(got)
     /\ CASE ~ok                   -> G = {} /\ (ends => left = {})
          [] doing.how = "next"  -> out = 0 /\ Len(got) = (IF had = {} THEN 0 ELSE 1)
          [] doing.how = "nth"   -> /\ out = (IF doing.n <= Cardinality(had) THEN doing.n ELSE Cardinality(had))
                                    /\ Len(got) = (IF doing.n < Cardinality(had) THEN 1 ELSE 0)
          [] doing.how = "drop"  -> left = {}
          [] doing.how = "count" -> left = {}
          [] doing.how = "last"  -> G = left /\ Len(got) = (IF had = {} THEN 0 ELSE 1)
          [] doing.how = "all"   -> out = 0 /\ G = left
     /\ Put(G, USER)
     /\ its' = IF ends THEN its \ {i} ELSE its
     /\ Done
     /\ UNCHANGED <<who, objs>>

EndIterClone(ok) ==
  /\ doing.w = "iclone"
  /\ IF ~ok THEN Nothing
     ELSE /\ ClonesOf(Where(Left(doing.i)))
          /\ Put(Where(CALL), Left(doing.j))
          /\ its' = its \cup {doing.j}
          /\ Done
          /\ UNCHANGED <<who, objs>>

\* the caller drops everything handed out to it
EndRelease == doing.w = "release" /\ Where(USER) = {} /\ Nothing

-----------------------------------------------------------------------------
(* what can be seen *)

\* the entries a collection shows: <<kid, key token, value token>> in any order
Holds(o, ents) ==
  /\ doing = Idle /\ o \in DOMAIN objs
  /\ Len(ents) = Cardinality(DOMAIN objs[o])
  /\ {<<ents[i][1], <<ents[i][2], ents[i][3]>>>> : i \in DOMAIN ents} = {<<k, objs[o][k]>> : k \in DOMAIN objs[o]}
  /\ UNCHANGED ovars

\* at the end of everything nothing is left, and no memory either
Finished(bytes) ==
  /\ doing = Idle /\ objs = NoFn /\ its = {}
  /\ Where(GONE) = Toks
  /\ bytes = 0
  /\ UNCHANGED ovars

-----------------------------------------------------------------------------
\* each stored token is stored once; whatever lies in a collection is one of its entries
OTypeOK ==
  /\ doing.w \notin {"drop", "assign", "write"} => \A o \in DOMAIN objs : Where(In(o)) = Stored(o)
  /\ \A o \in DOMAIN objs : Where(In(o)) \subseteq Stored(o)
  /\ \A o \in DOMAIN objs : \A k, m \in DOMAIN objs[o] : \A x, y \in 1..2 :
       (<<k, x>> # <<m, y>> /\ objs[o][k][x] # 0) => objs[o][k][x] # objs[o][m][y]
  /\ \A o \in DOMAIN objs : \A k \in DOMAIN objs[o] : objs[o][k][1] # 0 => who[objs[o][k][1]].kid = k
  /\ doing = Idle => NothingHeld
  /\ \A t \in Toks : at[t][1] = "iter" => at[t][2] \in its
=============================================================================
