----------------------------- MODULE ResultMerge -----------------------------
(* Merging results of simulations that ran separately. A folder holds one   *)
(* file per run; files come in any order. One behaviour reads the files of  *)
(* the folders one by one and adds up runs and successes; afterwards the    *)
(* merged records the code wrote are judged by the totals.                  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, folder, file, tot, all, bad
vars == <<c, folder, file, tot, all, bad>>
C == Cases[c]
\* C.folders: sequences of files [valid, runs, x, z, meta]; x, z: -1 when the file has no such side
\* C.mode: "both" (X and Z in every file), "x", "z", "xz" (sides may be missing)
Zero == [xruns |-> 0, zruns |-> 0, x |-> 0, z |-> 0, hasx |-> FALSE, hasz |-> FALSE, metas |-> {}]
F == C.folders[folder]
UsesX == C.mode \in {"both", "x", "xz"}
UsesZ == C.mode \in {"both", "z", "xz"}

Init == c \in 1..Len(Cases) /\ folder = 1 /\ file = 1 /\ tot = Zero /\ all = <<>> /\ bad = ""
Read ==
  /\ bad = "" /\ folder <= Len(C.folders) /\ file <= Len(F)
  /\ LET f == F[file]
         x == UsesX /\ f.valid /\ f.x >= 0
         z == UsesZ /\ f.valid /\ f.z >= 0
     IN tot' = [xruns |-> tot.xruns + (IF x THEN f.runs ELSE 0), zruns |-> tot.zruns + (IF z THEN f.runs ELSE 0),
                x |-> tot.x + (IF x THEN f.x ELSE 0), z |-> tot.z + (IF z THEN f.z ELSE 0),
                hasx |-> tot.hasx \/ x, hasz |-> tot.hasz \/ z, metas |-> IF x \/ z THEN tot.metas \cup {f.meta} ELSE tot.metas]
  /\ file' = file + 1 /\ UNCHANGED <<c, folder, all, bad>>
Leave ==
  /\ bad = "" /\ folder <= Len(C.folders) /\ file > Len(F)
  /\ all' = (IF tot.hasx \/ tot.hasz THEN Append(all, tot) ELSE all)
  /\ folder' = folder + 1 /\ file' = 1 /\ tot' = Zero /\ UNCHANGED <<c, bad>>

\* a written record [x: side, z: side, meta] where a side is [has, runs, succ, ler, wer, eb2]:
\*   ler and (1-wer)^k as failures / successes per runs, eb2 the squared error bar times runs^3
SideOk(s, has, runs, succ) ==
  s.has = has /\ (has => s.runs = runs /\ s.succ = succ /\ s.fails = runs - succ /\ s.wersucc = succ /\ s.eb2 = succ * (runs - succ))
Matches(o, t) ==
  /\ (UsesX => SideOk(o.x, t.hasx, t.xruns, t.x))
  /\ (UsesZ => SideOk(o.z, t.hasz, t.zruns, t.z))
  /\ o.meta \in t.metas
Count(t, s) == Cardinality({i \in 1..Len(s) : s[i] = t})
\* every record belongs to one folder and the other way round (equal totals may be exchanged)
Assigned == \E p \in [1..Len(all) -> 1..Len(C.out)] :
              (\A i, j \in 1..Len(all) : i # j => p[i] # p[j]) /\ (\A i \in 1..Len(all) : Matches(C.out[p[i]], all[i]))
Judge ==
  /\ bad = "" /\ folder > Len(C.folders) /\ folder < 1000
  /\ bad' = (IF C.status # "ok" THEN "MergesWithoutError"
             ELSE IF Len(C.out) # Len(all) THEN "OneRecordPerFolder"
             ELSE IF ~Assigned THEN "TotalsAndTheirRates"
             ELSE IF ~C.unchanged THEN "InputsUntouched"
             ELSE "")
  /\ folder' = 1000 /\ UNCHANGED <<c, file, tot, all>>
Finished == bad = "" /\ folder = 1000 /\ UNCHANGED vars
Next == Read \/ Leave \/ Judge \/ Finished

MergesWithoutError == bad # "MergesWithoutError"
OneRecordPerFolder == bad # "OneRecordPerFolder"
TotalsAndTheirRates == bad # "TotalsAndTheirRates"
InputsUntouched == bad # "InputsUntouched"
=============================================================================
