----------------------------- MODULE ReportedCounts ----------------------------
(* The report of a simulation: counts are summed over everything but the    *)
(* first classical register (the last part of an outcome), and the states   *)
(* above the threshold are printed in order with their relative frequency,  *)
(* at most a thousand of them.                                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, sum, bad
vars == <<c, i, sum, bad>>
C == Cases[c]
Most == 1000
\* relative frequency above the threshold (in thousandths)
Shown(s) == sum[s] * 1000 > C.threshold * C.shots
Must == {s \in DOMAIN sum : Shown(s)}
Lines == C.lines
Printed == {Lines[j].state : j \in 1..Len(Lines)}
First == CHOOSE s \in DOMAIN sum : \A t \in DOMAIN sum : s <= t
EndWrong ==
  IF C.status # "ok" THEN "NoException"
  ELSE IF \E j \in 1..(Len(Lines) - 1) : Lines[j].state >= Lines[j + 1].state THEN "StatesInOrder"
  ELSE IF \E j \in 1..Len(Lines) : Lines[j].width # C.width \/ Lines[j].state \notin DOMAIN sum THEN "StatesOfTheFirstRegister"
  ELSE IF \E j \in 1..Len(Lines) : Lines[j].count # sum[Lines[j].state] THEN "CountsAddUp"
  ELSE IF Len(Lines) > Most \/ (Len(Lines) < Most /\ ~(Must \subseteq Printed)) THEN "EveryStateAboveTheThreshold"
  ELSE IF Printed \ (Must \cup {First}) # {} THEN "NoStateBelowTheThreshold"
  ELSE IF \E s \in Must \ Printed : \E t \in Printed : s < t THEN "EveryStateAboveTheThreshold"
  ELSE ""
Init == c \in 1..Len(Cases) /\ i = 1 /\ sum = <<>> /\ bad = ""
Add == /\ bad = "" /\ i <= Len(C.counts)
       /\ \E e \in {C.counts[i]} : sum' = (IF e.last \in DOMAIN sum THEN [sum EXCEPT ![e.last] = @ + e.count] ELSE (e.last :> e.count) @@ sum)
       /\ i' = i + 1 /\ UNCHANGED <<c, bad>>
Judge == bad = "" /\ i = Len(C.counts) + 1 /\ bad' = EndWrong /\ i' = i + 1 /\ UNCHANGED <<c, sum>>
Finished == (bad # "" \/ i = Len(C.counts) + 2) /\ UNCHANGED vars
Next == Add \/ Judge \/ Finished
NoException == bad # "NoException"
StatesInOrder == bad # "StatesInOrder"
StatesOfTheFirstRegister == bad # "StatesOfTheFirstRegister"
CountsAddUp == bad # "CountsAddUp"
EveryStateAboveTheThreshold == bad # "EveryStateAboveTheThreshold"
NoStateBelowTheThreshold == bad # "NoStateBelowTheThreshold"
=============================================================================
