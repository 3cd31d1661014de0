------------------------------ MODULE MacroHist ------------------------------
(* Every literal over a few keys, evaluated step by step, then looked into.   *)
EXTENDS Macro
CONSTANTS NKeys, MaxLen, MaxObj

VARIABLES wrote,   \* object -> the literal it was written as
          evald    \* the values evaluated so far, over all literals

hvars == <<vars, mvars, wrote, evald>>

Literals == {s \in UNION {[1..n -> (1..NKeys) \X (11..12)] : n \in 0..MaxLen} :
               NoDup([i \in DOMAIN s |-> s[i][1]])}

HInit == MInit /\ wrote = Empty /\ evald = <<>>

HBegin == \E o \in 1..MaxObj, p \in Literals :
            /\ Begin(o, p)
            /\ wrote' = (o :> p) @@ wrote
            /\ evald' = <<>>
HEval == \E v \in 11..12 : Evaluate(v) /\ evald' = Append(evald, v) /\ UNCHANGED wrote
HEnd == End /\ UNCHANGED <<wrote, evald>>
HGet == \E o \in DOMAIN objs, k \in 1..NKeys + 1 :
          /\ lit = 0
          /\ Lookup(o, "get", <<k>>, <<Val(o, k)>>)
          /\ UNCHANGED <<mvars, wrote, evald>>
HWhole == \E o \in 1..MaxObj, lo \in 1..2, hi \in 0..NKeys, r \in {<<>>} \cup {<<<<a, b>>>> : a \in 1..2, b \in 1..NKeys} :
            /\ Whole(o, lo, hi, r)
            /\ wrote' = (o :> [i \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |-> <<lo + i - 1, lo + i - 1>>]) @@ wrote
            /\ evald' = [i \in 1..(IF r = <<>> THEN 0 ELSE r[1][2] - r[1][1] + 1) |-> r[1][1] + i - 1]
HSpec == HInit /\ [][HBegin \/ HEval \/ HEnd \/ HGet \/ HWhole]_hvars

\* the map holds exactly the written entries, and absent keys are absent
ExactlyWritten ==
  \A o \in DOMAIN objs :
    /\ Cardinality(Keys(o)) = Len(wrote[o])
    /\ \A i \in DOMAIN wrote[o] : Val(o, wrote[o][i][1]) = wrote[o][i][2]
    /\ \A k \in 1..NKeys + 1 : k \notin {wrote[o][i][1] : i \in DOMAIN wrote[o]} => Val(o, k) = NONE

\* values are evaluated once each, in source order
SourceOrder ==
  lit # 0 => /\ Len(evald) = nval
             /\ evald = [i \in 1..nval |-> wrote[lit][i][2]]

\* an object appears only when all its values have been evaluated
BuiltLast == [][\A o \in DOMAIN objs' \ DOMAIN objs : lit \in {0, o} /\ evald' = [i \in DOMAIN wrote'[o] |-> wrote'[o][i][2]]]_hvars
=============================================================================
