-------------------------------- MODULE Macro --------------------------------
(* frozen_map! as a state machine: a literal is written (its entries, in      *)
(* source order, with pairwise distinct keys); its value expressions are      *)
(* evaluated one at a time, each once, in source order; when all have been    *)
(* evaluated the literal is a map with exactly the written entries, which     *)
(* then obeys the contract of Frozen.  There is no action for a literal which *)
(* does not compile.                                                          *)
EXTENDS Frozen

VARIABLES
  text,   \* the entries <<key, value>> of the literal under evaluation
  nval,   \* how many of its value expressions have been evaluated
  lit     \* the object it will be, 0 if no literal is under evaluation

mvars == <<text, nval, lit>>

MInit == Init /\ text = <<>> /\ nval = 0 /\ lit = 0

Begin(o, pay) ==
  /\ lit = 0 /\ ~Live(o)
  /\ NoDup([i \in DOMAIN pay |-> pay[i][1]])
  /\ text' = pay /\ nval' = 0 /\ lit' = o
  /\ UNCHANGED vars

\* the value expression with value v is evaluated
Evaluate(v) ==
  /\ lit # 0
  /\ nval < Len(text)
  /\ v = text[nval + 1][2]
  /\ nval' = nval + 1
  /\ UNCHANGED <<vars, text, lit>>

End ==
  /\ lit # 0
  /\ nval = Len(text)
  /\ Build(lit, "map", text, 0, FALSE, "ok")
  /\ lit' = 0 /\ text' = <<>> /\ nval' = 0

\* the same in one step, for literals too long to be watched entry by entry:
\* the entries are <<lo, lo>>, <<lo + 1, lo + 1>>, ... <<hi, hi>>, and `runs`
\* is the sequence of values evaluated, in maximal runs of consecutive ones
RunsOf(lo, hi) == IF hi < lo THEN <<>> ELSE <<<<lo, hi>>>>

Whole(o, lo, hi, runs) ==
  /\ lit = 0
  /\ runs = RunsOf(lo, hi)
  /\ BuildInterval(o, "map", lo, hi, 0, FALSE, "ok")
  /\ UNCHANGED mvars

MTypeOK == TypeOK /\ nval \in 0..Len(text) /\ (lit = 0 => text = <<>>)
=============================================================================
