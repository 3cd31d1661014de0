------------------------------- MODULE Readers -------------------------------
(* Many threads reading shared collections.  A read is two steps - it starts, *)
(* and later finishes with a result - so reads of different threads overlap   *)
(* in every possible way.  Borrowing is explicit: a write needs the           *)
(* collection exclusively, so it happens only while no read is under way.     *)
(* The claims: a read never changes anything, and whatever overlaps with it,  *)
(* returns what the same read returns on a collection freshly built with the  *)
(* present contents.                                                          *)
EXTENDS Frozen
CONSTANTS Threads, NKeys, Vias

VARIABLES
  doing,   \* thread -> the read it is in the middle of, <<>> if none
  built,   \* the contents the (one) object was last given
  done     \* the last finished read, with its result

rvars == <<vars, doing, built, done>>

KeysOf == 1..NKeys + 1

RInit ==
  /\ its = Empty
  /\ \E S \in SUBSET (1..NKeys) :
       LET c == [k \in S |-> 10 + k] IN
       objs = (1 :> [t |-> "map", c |-> c, ord |-> <<>>]) /\ built = c
  /\ doing = [t \in Threads |-> <<>>]
  /\ done = <<>>

Start(t) ==
  /\ doing[t] = <<>>
  /\ \E via \in Vias, k \in KeysOf : doing' = [doing EXCEPT ![t] = <<via, k>>]
  /\ UNCHANGED <<vars, built, done>>

Finish(t) ==
  /\ doing[t] # <<>>
  /\ LET r == Answer(doing[t][1], 1, doing[t][2]) IN
     /\ Lookup(1, doing[t][1], <<doing[t][2]>>, <<r>>)
     /\ done' = <<doing[t][1], doing[t][2], r>>
  /\ doing' = [doing EXCEPT ![t] = <<>>]
  /\ UNCHANGED built

Exclusive == \A t \in Threads : doing[t] = <<>>

Update ==
  /\ Exclusive
  /\ \E k \in KeysOf, v \in 20..21 :
       /\ Write(1, "gm", k, v, Val(1, k))
       /\ built' = objs'[1].c
  /\ UNCHANGED <<doing, done>>

RSpec == RInit /\ [][Update \/ \E t \in Threads : Start(t) \/ Finish(t)]_rvars

\* what the read would return on a freshly built collection
Fresh(via, c, k) ==
  CASE via = "get" -> IF k \in DOMAIN c THEN c[k] ELSE NONE
    [] via = "gkv" -> IF k \in DOMAIN c THEN <<k, c[k]>> ELSE <<NONE, NONE>>
    [] via = "has" -> IF k \in DOMAIN c THEN 1 ELSE 0
    [] via = "idx" -> IF k \in DOMAIN c THEN c[k] ELSE PANIC

AsFresh == [][done' # done => done'[3] = Fresh(done'[1], built, done'[2])]_rvars
NoTrace == [][(\E t \in Threads : doing'[t] # doing[t]) => UNCHANGED vars]_rvars
StillBuilt == objs[1].c = built
=============================================================================
