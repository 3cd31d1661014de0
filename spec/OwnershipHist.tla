---------------------------- MODULE OwnershipHist ----------------------------
(* Every history of calls, each doing with the tokens in its hands anything   *)
(* Ownership allows.  What C19 claims is said over the log of creations and   *)
(* drops alone; with Emit the calls of complete histories are printed, to be  *)
(* made on the real collections.                                              *)
EXTENDS Ownership, Json
CONSTANTS Types,    \* subset of {"map", "set"}
          Tracked,  \* are keys tokens?
          NKids, MaxPay, MaxObj, MaxIt, MaxTok, Depth, Ops, Sim, Emit
VARIABLES log,      \* the calls made
          drops,    \* token -> times dropped
          born      \* tokens ever created
hvars == <<ovars, log, drops, born>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Kids == 1..NKids
NewObj == LET F == (1..MaxObj) \ DOMAIN objs IN IF F = {} THEN {} ELSE {CHOOSE x \in F : \A y \in F : x <= y}
NewIt == LET F == (1..MaxIt) \ its IN IF F = {} THEN {} ELSE {CHOOSE x \in F : \A y \in F : x <= y}
Next1 == Cardinality(born) + 1
Lists == UNION {[1..n -> Kids] : n \in 0..MaxPay}
IsSet(o) == \A k \in DOMAIN objs[o] : objs[o][k][2] = 0

Say(e) == log' = Append(log, e)
Made(S) == born' = born \cup S /\ drops' = [t \in DOMAIN drops \cup S |-> IF t \in DOMAIN drops THEN drops[t] ELSE 0]
Keep == UNCHANGED <<drops, born>>
Room(n) == Cardinality(born) + n <= MaxTok

Call ==
  /\ doing = Idle /\ Len(log) < Depth
  /\ \/ /\ "build" \in Ops
        /\ \E o \in NewObj, ty \in Pick(Types), ks \in Pick(Lists) :
          LET n == Len(ks)  w == IF ty = "map" THEN 1 ELSE 0  kt == IF Tracked THEN 1 ELSE 0
              pay == [i \in 1..n |-> <<ks[i], kt * (Next1 + (i - 1) * (w + kt)), w * (Next1 + (i - 1) * (w + kt) + kt)>>] IN
          /\ Room(n * (w + kt))
          /\ BeginBuild(o, pay)
          /\ Made(({pay[i][2] : i \in 1..n} \cup {pay[i][3] : i \in 1..n}) \ {0})
          /\ Say([op |-> "build", o |-> o, t |-> ty, ks |-> ks])
     \/ /\ "write" \in Ops
        /\ \E o \in DOMAIN objs, k \in Pick(Kids), swap \in Pick({FALSE, TRUE}) :
          /\ ~IsSet(o) /\ Room(1)
          /\ BeginWrite(o, <<k>>, <<Next1>>, swap) /\ Made({Next1})
          /\ Say([op |-> "write", o |-> o, ks |-> <<k>>, swap |-> swap])
     \/ /\ "many" \in Ops
        /\ \E o \in DOMAIN objs, k \in Pick(Kids), m \in Pick(Kids) :
          /\ ~IsSet(o) /\ Room(2)
          /\ BeginWrite(o, <<k, m>>, <<Next1, Next1 + 1>>, FALSE) /\ Made({Next1, Next1 + 1})
          /\ Say([op |-> "write", o |-> o, ks |-> <<k, m>>, swap |-> FALSE])
     \/ "clone" \in Ops /\ \E o \in DOMAIN objs, p \in NewObj : BeginClone(o, p) /\ Keep /\ Say([op |-> "clone", o |-> o, p |-> p])
     \/ "assign" \in Ops /\ \E o, p \in DOMAIN objs : IsSet(o) = IsSet(p) /\ BeginAssign(o, p) /\ Keep /\ Say([op |-> "assign", o |-> o, p |-> p])
     \/ "drop" \in Ops /\ \E o \in DOMAIN objs : BeginDrop(o) /\ Keep /\ Say([op |-> "drop", o |-> o])
     \/ "read" \in Ops /\ \E o \in DOMAIN objs : BeginRead({o}) /\ Keep /\ Say([op |-> "read", o |-> o])
     \/ "sop" \in Ops /\ \E a, b \in DOMAIN objs, kind \in Pick({"un", "in", "di", "sd"}) : IsSet(a) /\ IsSet(b) /\ BeginSop(a, b) /\ Keep /\ Say([op |-> "sop", a |-> a, b |-> b, kind |-> kind])
     \/ "into" \in Ops /\ \E o \in DOMAIN objs, i \in NewIt : IsSet(o) /\ BeginInto(o, i) /\ Keep /\ Say([op |-> "into", o |-> o, i |-> i])
     \/ "iter" \in Ops /\ \E i \in its, how \in Pick({"next", "nth", "drop", "count", "last", "all"}) :
          \E n \in Pick(IF how = "nth" THEN 0..2 ELSE {0}) : BeginIter(i, how, n) /\ Keep /\ Say([op |-> "iter", i |-> i, how |-> how, n |-> n])
     \/ "iclone" \in Ops /\ \E i \in its, j \in NewIt : BeginIterClone(i, j) /\ Keep /\ Say([op |-> "iclone", i |-> i, j |-> j])
     \/ "release" \in Ops /\ Where(USER) # {} /\ BeginRelease /\ Keep /\ Say([op |-> "release"])

\* in generated histories calls do the least they can
Lazy(t) ==
  ~Sim \/ CASE doing.w = "build" -> \E i, j \in DOMAIN doing.pay : i < j /\ doing.pay[i][1] = doing.pay[j][1] /\ (t = doing.pay[i][2] \/ t = doing.pay[i][3])
            [] doing.w = "write" -> (t \in Replaced) = (Range(doing.kids) \subseteq DOMAIN objs[doing.o] /\ Cardinality(Range(doing.kids)) = Len(doing.kids))
            [] doing.w = "iter" -> \/ doing.how \in {"drop", "count"}
                                   \/ doing.how = "last" /\ Cardinality(Where(Left(doing.i))) > 1
                                   \/ doing.how = "nth" /\ Cardinality(doing.had) - Cardinality(Where(Left(doing.i))) < doing.n
            [] OTHER -> TRUE

Sources == CASE doing.w \in {"clone", "assign"} -> Stored(doing.o) \cap Where(In(doing.o))
             [] doing.w = "iclone" -> Where(Left(doing.i))
             [] doing.w = "sop" -> (Stored(doing.a) \cup Stored(doing.b)) \cap {t \in Toks : at[t][1] = "obj"}
             [] OTHER -> {}

Inside ==
  /\ doing # Idle
  /\ UNCHANGED log
  /\ \/ \E t \in Toks : /\ (Sim => doing.w \notin {"clone", "assign", "iclone", "sop"} \/ at[t] # CALL)
                        /\ Lazy(t)
                        /\ DropTok(t) /\ drops' = [drops EXCEPT ![t] = @ + 1] /\ UNCHANGED born
     \/ Room(1) /\ \E t \in Sources : (\A u \in Where(CALL) : who[u] # who[t]) /\ (\A u \in Where(CALL) : doing.w = "sop" => who[u].kid # who[t].kid)
                         /\ CloneTok(t, Next1) /\ Made({Next1})

\* handing out in a fixed order is enough
RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET t == CHOOSE x \in S : \A y \in S : x <= y IN <<t>> \o Listing(S \ {t})

End ==
  /\ UNCHANGED <<log, drops, born>>
  /\ \/ \E ok \in (IF Sim THEN {TRUE} ELSE BOOLEAN) : EndBuild(ok)
     \/ EndWrite(FALSE, <<>>)
     \/ doing.w = "write" /\ EndWrite(TRUE, IF doing.swap THEN Listing(Replaced) ELSE <<>>)
     \/ \E ok \in (IF Sim THEN {TRUE} ELSE BOOLEAN) : EndClone(ok)
     \/ EndAssign \/ EndDrop \/ EndRead \/ EndInto \/ EndRelease
     \/ \E ok \in (IF Sim THEN {TRUE} ELSE BOOLEAN) : EndIterClone(ok)
     \/ EndSop(TRUE, Listing(Where(CALL))) \/ EndSop(FALSE, <<>>)
     \/ doing.w = "iter" /\ (\/ \E t \in Where(Left(doing.i)) : EndIter(TRUE, <<t>>)
                            \/ EndIter(TRUE, Listing(Where(Left(doing.i))))
                            \/ EndIter(TRUE, <<>>) \/ (~Sim /\ EndIter(FALSE, <<>>)))

HInit == OInit /\ log = <<>> /\ drops = NoFn /\ born = {}
HSpec == HInit /\ [][Call \/ Inside \/ End]_hvars

\* C19 over the log: nothing is dropped twice; what is gone was dropped, what is not was not
AtMostOnce == \A t \in born : drops[t] <= 1
GoneMeansDropped == \A t \in born : (drops[t] = 1) <=> (at[t] = GONE)
\* nothing created is ever lost track of
Accounted == born = Toks /\ \A t \in born : at[t] \in {CALL, USER, GONE} \cup {In(o) : o \in DOMAIN objs} \cup {Left(i) : i \in its}
\* with no collection, iterator or call left, and nothing with the caller, every token ever made was dropped exactly once
AllReturned == (doing = Idle /\ objs = NoFn /\ its = {} /\ Where(USER) = {}) => \A t \in born : drops[t] = 1
\* no call can get stuck: whatever it did, it can still end, dropping or cloning first where it must
NotStuck == doing # Idle => (ENABLED Inside \/ ENABLED End \/ ~Room(1))

EmitInv == (Emit /\ doing = Idle /\ Len(log) = Depth) => PrintT("HIST " \o ToJson(log))
=============================================================================
