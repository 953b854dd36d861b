---------------------------- MODULE ResultFiles ----------------------------
(* Reserving result files. Several runs ask at the same time for the file   *)
(* of their settings; a call takes, at one moment between its start and its *)
(* end, the first identifier from its own on that nobody holds. A history   *)
(* recorded from the code (who returned which identifier, when, which files *)
(* were there before and are there afterwards, who was killed) is accepted  *)
(* when such moments exist. In the same module: files of different settings *)
(* lie apart, and settings files are read into lists of values.             *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, held, taken, pos, acc, bad
vars == <<c, held, taken, pos, acc, bad>>
C == Cases[c]
ToSet(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
\* reserving
\* C.kind = "reserve": C.pre, C.post identifiers of the files before and after; C.calls: [from, id, status, first, last]
\*   status "ok" | "killed"; a killed call has taken the identifier id, or none (id = -1)
K == IF C.kind = "reserve" THEN Len(C.calls) ELSE 0
IsDone(i) == i \in taken \/ C.calls[i].id = -1
FirstFree(n) == CHOOSE m \in n..(n + Cardinality(held)) : m \notin held /\ \A l \in n..(m - 1) : l \in held
\* calls that ended before this one began have taken effect before
Before(i) == {j \in 1..K : C.calls[j].last < C.calls[i].first}
CanTake(i) == ~IsDone(i) /\ (\A j \in Before(i) : IsDone(j)) /\ FirstFree(C.calls[i].from) = C.calls[i].id
Take(i) ==
  /\ C.kind = "reserve" /\ bad = "" /\ pos = 0
  /\ CanTake(i)
  /\ held' = held \cup {C.calls[i].id} /\ taken' = taken \cup {i} /\ UNCHANGED <<c, pos, acc, bad>>
Returned == {i \in 1..K : C.calls[i].status = "ok"}
Distinct == \A i, j \in Returned : i # j => C.calls[i].id # C.calls[j].id
New == \A i \in Returned : C.calls[i].id \notin ToSet(C.pre)
Exist == \A i \in Returned : C.calls[i].id \in ToSet(C.post)
Close ==
  /\ C.kind = "reserve" /\ bad = "" /\ pos = 0
  /\ ~ENABLED (\E i \in 1..K : Take(i))
  /\ bad' = (IF \E i \in 1..K : C.calls[i].status = "error" THEN "CallsReturn"
             ELSE IF ~Distinct THEN "OneRunPerFile"
             ELSE IF ~New THEN "EarlierFilesAreKept"
             ELSE IF ~C.kept THEN "EarlierFilesAreKept"
             ELSE IF ~Exist THEN "FileIsReserved"
             ELSE IF \E i \in 1..K : ~IsDone(i) THEN "FirstFreeIdentifier"
             ELSE IF held # ToSet(C.post) THEN "NoStrayFiles"
             ELSE "")
  /\ pos' = 1 /\ UNCHANGED <<c, held, taken, acc>>

-----------------------------------------------------------------------------
\* settings apart
\* C.kind = "apart": C.runs: [set: a record of settings, place: the file's path without its identifier]
Apart ==
  /\ C.kind = "apart" /\ bad = "" /\ pos = 0
  /\ bad' = (IF \E i, j \in 1..Len(C.runs) : (C.runs[i].set = C.runs[j].set) # (C.runs[i].place = C.runs[j].place) THEN "SettingsLieApart" ELSE "")
  /\ pos' = 1 /\ UNCHANGED <<c, held, taken, acc>>

-----------------------------------------------------------------------------
\* settings files
\* C.kind = "settings": C.lines: sequences of [key, val] in order; C.out: sequence of [key, vals] in the order of the dictionary
\* acc is read line by line, entry by entry
Flat[n \in 0..(IF C.kind = "settings" THEN Len(C.lines) ELSE 0)] == IF n = 0 THEN <<>> ELSE Flat[n - 1] \o C.lines[n]
At(a, key) == {i \in 1..Len(a) : a[i].key = key}
Put(a, e) ==
  IF At(a, e.key) = {} THEN Append(a, [key |-> e.key, vals |-> <<e.val>>])
  ELSE LET i == CHOOSE j \in At(a, e.key) : TRUE
       IN IF e.val \in ToSet(a[i].vals) THEN a ELSE [a EXCEPT ![i].vals = Append(@, e.val)]
ReadEntry ==
  /\ C.kind = "settings" /\ bad = "" /\ pos < Len(Flat[Len(C.lines)])
  /\ acc' = Put(acc, Flat[Len(C.lines)][pos + 1])
  /\ pos' = pos + 1 /\ UNCHANGED <<c, held, taken, bad>>
EndOfFile ==
  /\ C.kind = "settings" /\ bad = "" /\ pos = Len(Flat[Len(C.lines)])
  /\ bad' = (IF C.status # "ok" THEN "CallsReturn"
             ELSE IF Len(C.out) # Len(acc) \/ ToSet(C.out) # ToSet(acc) THEN "SettingsAreTheDistinctValues" ELSE "")
  /\ pos' = 1000 /\ UNCHANGED <<c, held, taken, acc>>

-----------------------------------------------------------------------------
\* combinations
\* C.kind = "product" | "zip": C.lists: sequence of lists of values, C.out: the sequence of combinations
ND == IF C.kind = "product" THEN Len(C.lists) ELSE 0
RECURSIVE Combine(_)
Combine(n) ==
  IF n = 0 THEN {<<>>} ELSE {Append(p, v) : p \in Combine(n - 1), v \in ToSet(C.lists[n])}
RECURSIVE Size(_)
Size(n) == IF n = 0 THEN 1 ELSE Size(n - 1) * Len(C.lists[n])
Shortest == CHOOSE m \in {Len(l) : l \in ToSet(C.lists)} : \A l \in ToSet(C.lists) : m <= Len(l)
Combos ==
  /\ C.kind \in {"product", "zip"} /\ bad = "" /\ pos = 0
  /\ bad' = (IF C.status # "ok" THEN "CallsReturn"
             ELSE IF C.kind = "product"
                  THEN IF Len(C.out) = Size(ND) /\ ToSet(C.out) = Combine(ND) THEN "" ELSE "AllCombinations"
                  ELSE IF C.out = [i \in 1..Shortest |-> [j \in 1..Len(C.lists) |-> C.lists[j][i]]] THEN "" ELSE "ValuesSideBySide")
  /\ pos' = 1 /\ UNCHANGED <<c, held, taken, acc>>

Init == c \in 1..Len(Cases) /\ held = (IF Cases[c].kind = "reserve" THEN ToSet(Cases[c].pre) ELSE {}) /\ taken = {} /\ pos = 0 /\ acc = <<>> /\ bad = ""
Finished == (bad # "" \/ pos = 1000 \/ (pos = 1 /\ C.kind # "settings")) /\ UNCHANGED vars
Next == (\E i \in 1..K : Take(i)) \/ Close \/ Apart \/ ReadEntry \/ EndOfFile \/ Combos \/ Finished

CallsReturn == bad # "CallsReturn"
OneRunPerFile == bad # "OneRunPerFile"
EarlierFilesAreKept == bad # "EarlierFilesAreKept"
FileIsReserved == bad # "FileIsReserved"
FirstFreeIdentifier == bad # "FirstFreeIdentifier"
NoStrayFiles == bad # "NoStrayFiles"
SettingsLieApart == bad # "SettingsLieApart"
SettingsAreTheDistinctValues == bad # "SettingsAreTheDistinctValues"
AllCombinations == bad # "AllCombinations"
ValuesSideBySide == bad # "ValuesSideBySide"
=============================================================================
