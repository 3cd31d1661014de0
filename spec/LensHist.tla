------------------------------ MODULE LensHist ------------------------------
(* Histories of container operations of one kind, and what their lengths must *)
(* be, said over the history alone.  With Emit the complete histories are     *)
(* printed, to be replayed on every Rust type of that kind.                   *)
EXTENDS Lens, Json
CONSTANTS Kind, Elems, MaxObj, MaxSize, Depth, Emit
VARIABLES log, sizes    \* sizes: the sizes of all containers before each step
hvars == <<cs, log, sizes>>

Say(e) == log' = Append(log, e) /\ sizes' = Append(sizes, [o \in DOMAIN cs |-> Size(o)])
NewObj == LET F == (1..MaxObj) \ DOMAIN cs IN IF F = {} THEN {} ELSE {CHOOSE x \in F : \A y \in F : x <= y}
Seqs == {<<>>} \cup {<<x>> : x \in Elems} \cup {<<x, y>> : x \in Elems, y \in Elems}
Positions(o) == IF Kind \in {"set", "bag"} THEN {0} ELSE 0..Len(cs[o].c)
Takes(o) == IF Kind = "set" THEN Elems ELSE IF Kind = "bag" THEN {0} ELSE 0..(Len(cs[o].c) - 1)
Cuts(o) == IF Kind \in {"set", "bag"} THEN Elems ELSE 0..Len(cs[o].c)

HNext ==
  /\ Len(log) < Depth
  /\ \/ \E o \in NewObj, xs \in Seqs : Make(o, Kind, xs) /\ Say([op |-> "make", o |-> o, xs |-> xs])
     \/ \E o \in DOMAIN cs :
          \/ Len(cs[o].c) < MaxSize /\ \E x \in Elems \ (IF Kind = "cstr" THEN {0} ELSE {}), at \in Positions(o) : Add(o, at, x) /\ Say([op |-> "add", o |-> o, at |-> at, x |-> x])
          \/ \E at \in Takes(o) : Take(o, at) /\ Say([op |-> "take", o |-> o, at |-> at])
          \/ \E n \in Cuts(o) : Cut(o, n) /\ Say([op |-> "cut", o |-> o, n |-> n])
          \/ Clear(o) /\ Say([op |-> "clear", o |-> o])
          \/ Same(o) /\ Say([op |-> "same", o |-> o])
          \/ \E p \in NewObj : Copy(o, p) /\ Say([op |-> "copy", o |-> o, p |-> p])
          \/ \E p \in DOMAIN cs : Absorb(o, p) /\ Say([op |-> "absorb", o |-> o, p |-> p])
          \/ Drop(o) /\ Say([op |-> "drop", o |-> o])

HSpec == Init /\ log = <<>> /\ sizes = <<>> /\ [][HNext]_hvars

\* what one step does to the sizes, without looking at contents
Wide == IF Kind = "text" THEN 4 ELSE 1
StepsCount ==
  [][LET e == log'[Len(log')]
         before == sizes'[Len(sizes')]
         now(o) == SizeOf(cs'[o].kind, cs'[o].c) IN
     CASE e.op = "add" -> now(e.o) - before[e.o] \in (IF Kind = "set" THEN {0, 1} ELSE 1..Wide)
       [] e.op = "take" -> IF before[e.o] = 0 THEN now(e.o) = 0 ELSE before[e.o] - now(e.o) \in (IF Kind = "set" THEN {0, 1} ELSE 1..Wide)
       [] e.op = "clear" -> now(e.o) = 0
       [] e.op = "same" -> now(e.o) = before[e.o]
       [] e.op = "copy" -> now(e.p) = before[e.o]
       [] e.op = "absorb" -> now(e.p) = 0 /\ (IF Kind = "set" THEN now(e.o) <= before[e.o] + before[e.p] /\ now(e.o) >= before[e.o] /\ now(e.o) >= before[e.p]
                                              ELSE now(e.o) = before[e.o] + before[e.p])
       [] e.op = "cut" -> now(e.o) <= before[e.o]
       [] OTHER -> TRUE]_hvars

\* only the containers an operation names change
OthersKeep ==
  [][LET e == log'[Len(log')] IN
     \A o \in DOMAIN cs : (o # e.o /\ (e.op \notin {"absorb", "copy"} \/ o # e.p)) => cs'[o] = cs[o]]_hvars

BytesAgree == \A o \in DOMAIN cs : Kind = "text" => Size(o) = Bytes(cs[o].c, 1)
EmptyIffZero == \A o \in DOMAIN cs : (Size(o) = 0) <=> (cs[o].c = <<>>)

EmitInv == (Emit /\ Len(log) = Depth) => PrintT("HIST " \o ToJson(log))
=============================================================================
