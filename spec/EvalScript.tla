----------------------------- MODULE EvalScript ------------------------------
(* The script that estimates logical error rates of stored circuits.        *)
(* "run": the options of a command line are read one after another; the     *)
(* state they leave determines the code, the stored circuit, the noise and  *)
(* the number of errors of the simulation that has to be started, and what  *)
(* is printed. "sweep": the shell script calls the estimation once for      *)
(* every error rate, in any order, and stores one row per call.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, o, phase, left, bad
vars == <<c, pos, o, phase, left, bad>>
C == Cases[c]
R == C.rec

Defaults == [p |-> "None", n |-> "500", zero |-> TRUE, exactcirc |-> FALSE, exactver |-> TRUE, naive |-> FALSE, nover |-> FALSE, d |-> "", parallel |-> TRUE]
Init == /\ c \in 1..Len(Cases) /\ pos = 1 /\ o = Defaults /\ phase = Cases[c].kind /\ bad = ""
        /\ left = IF Cases[c].kind = "sweep" THEN {i : i \in 1..Len(Cases[c].calls)} ELSE {}

\* ------------------------------------------------------------------ the options
Option(a) ==
  CASE a[1] \in {"-p", "--p_error"} -> [o EXCEPT !.p = a[2]]
    [] a[1] \in {"-n", "--n_errors"} -> [o EXCEPT !.n = a[2]]
    [] a[1] \in {"-d", "--distance"} -> [o EXCEPT !.d = a[2]]
    [] a[1] = "--zero_state" -> [o EXCEPT !.zero = TRUE]
    [] a[1] = "--plus_state" -> [o EXCEPT !.zero = FALSE]
    [] a[1] = "--exact_circ" -> [o EXCEPT !.exactcirc = TRUE]
    [] a[1] = "--heuristic_circ" -> [o EXCEPT !.exactcirc = FALSE]
    [] a[1] = "--exact_ver" -> [o EXCEPT !.exactver = TRUE]
    [] a[1] = "--heuristic_ver" -> [o EXCEPT !.exactver = FALSE]
    [] a[1] = "--naive_ver" -> [o EXCEPT !.naive = TRUE]
    [] a[1] = "--no_ver" -> [o EXCEPT !.nover = TRUE]
    [] a[1] = "--no_parallel_gates" -> [o EXCEPT !.parallel = FALSE]
Read == /\ bad = "" /\ phase = "run" /\ pos <= Len(C.args) /\ o' = Option(C.args[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<c, phase, left, bad>>

\* ------------------------------------------------------------------ what has to be simulated
Named == {"steane", "tetrahedral", "shor", "hamming", "carbon"}
Surface == C.code = "surface"
Color == C.code \in {"cc_4_8_8", "cc_6_6_6"}
Distance == IF o.d # "" THEN o.d ELSE IF Color THEN "5" ELSE "3"
Known == C.code \in Named \cup {"surface", "cc_4_8_8", "cc_6_6_6"}
\* the code, as in the list of references
Code == IF Surface \/ Color THEN C.code \o " " \o Distance ELSE C.code
Ref == LET r == SelectSeq(C.refs, LAMBDA x : x.name = Code) IN r[1]
\* stored circuits of the code
Folder == IF Surface THEN "rotated_surface_d" \o Distance ELSE IF Color /\ Distance # "5" THEN "" ELSE C.code
Synthesis == IF o.exactcirc THEN "opt" ELSE "heuristic"
Verification == IF o.naive THEN "naive" ELSE IF o.exactver THEN "opt" ELSE "heuristic"
File == Folder \o "/" \o (IF o.zero THEN "zero" ELSE "plus") \o (IF o.nover THEN "_non_ft_" \o Synthesis ELSE "_ft_" \o Synthesis \o "_" \o Verification) \o ".qasm"
Stored == SelectSeq(C.stored, LAMBDA x : x.file = File)
Rows(m) == {{m[i][j] : j \in 1..Len(m[i])} : i \in 1..Len(m)}
Same(a, b) == Rows(a) = Rows(b)
Verified == R.nq > Ref.n

Wrong ==
  IF ~Known THEN IF C.status = "ValueError" /\ R.sims = 0 THEN "" ELSE "RejectsUnknownCodes"
  ELSE IF C.status # "ok" THEN "RunsForKnownCodes"
  ELSE IF R.sims # 1 THEN "SimulatesOnce"
  ELSE IF ~(Same(R.hx, Ref.hx) /\ Same(R.hz, Ref.hz)) THEN "SimulatesTheCodeNamed"
  ELSE IF R.zero # o.zero THEN "SimulatesTheStateAsked"
  ELSE IF R.p # o.p THEN "SimulatesTheErrorRate"
  ELSE IF R.parallel # o.parallel THEN "ParallelUnlessAskedOtherwise"
  ELSE IF R.min # o.n \/ ~R.atleast THEN "SamplesTheErrorsAsked"
  ELSE IF Len(Stored) = 1 /\ R.ops # Stored[1].ops THEN "TakesTheStoredCircuit"
  ELSE IF o.nover /\ (R.nmeas > 0 \/ Verified) THEN "LeavesTheVerificationOut"
  ELSE IF ~o.nover /\ o.naive /\ R.nmeas < Ref.rank THEN "NaiveVerificationMeasuresAllStabilizers"
  ELSE IF C.printed # R.returned THEN "PrintsTheResult"
  ELSE ""
Judge == /\ bad = "" /\ phase = "run" /\ pos > Len(C.args) /\ phase' = "done" /\ bad' = Wrong /\ UNCHANGED <<c, pos, o, left>>

\* ------------------------------------------------------------------ the sweep
\* rows are stored in the order in which the calls end
Value(call) == call.args[Len(call.args)]
Passed(call) == /\ Len(call.args) = Len(C.given) + 3 /\ call.args[1] = C.script /\ call.args[Len(call.args) - 1] = "-p"
                /\ SubSeq(call.args, 2, Len(call.args) - 2) = C.given
Take == /\ bad = "" /\ phase = "sweep" /\ pos <= Len(C.rows) /\ pos' = pos + 1 /\ UNCHANGED <<c, o, phase>>
        /\ LET mine == {i \in left : C.rows[pos] = <<Value(C.calls[i])>> \o C.calls[i].out} IN
           IF mine = {} THEN bad' = "OneRowPerErrorRate" /\ UNCHANGED left
           ELSE LET i == CHOOSE i \in mine : TRUE IN left' = left \ {i} /\ bad' = IF Passed(C.calls[i]) THEN "" ELSE "PassesTheArguments"
EndSweep == /\ bad = "" /\ phase = "sweep" /\ pos > Len(C.rows) /\ phase' = "done" /\ UNCHANGED <<c, pos, o, left>>
            /\ bad' = IF left # {} THEN "OneRowPerErrorRate"
                      ELSE IF Cardinality({Value(C.calls[i]) : i \in 1..Len(C.calls)}) # Len(C.calls) THEN "EveryErrorRateOnce"
                      ELSE IF ~({C.range[1], C.range[2]} \subseteq Range(C.hundredthousandths)) \/ (\E v \in Range(C.hundredthousandths) : v < C.range[1] \/ v > C.range[2]) THEN "CoversTheRange"
                      ELSE IF C.header # <<"p", "p_l", "acceptance", "errors", "runs">> THEN "NamesTheColumns"
                      ELSE ""
Done == bad = "" /\ phase = "done" /\ UNCHANGED vars
Next == Read \/ Judge \/ Take \/ EndSweep \/ Done
Spec == Init /\ [][Next]_vars

RejectsUnknownCodes == bad # "RejectsUnknownCodes"
RunsForKnownCodes == bad # "RunsForKnownCodes"
SimulatesOnce == bad # "SimulatesOnce"
SimulatesTheCodeNamed == bad # "SimulatesTheCodeNamed"
SimulatesTheStateAsked == bad # "SimulatesTheStateAsked"
SimulatesTheErrorRate == bad # "SimulatesTheErrorRate"
ParallelUnlessAskedOtherwise == bad # "ParallelUnlessAskedOtherwise"
SamplesTheErrorsAsked == bad # "SamplesTheErrorsAsked"
TakesTheStoredCircuit == bad # "TakesTheStoredCircuit"
LeavesTheVerificationOut == bad # "LeavesTheVerificationOut"
NaiveVerificationMeasuresAllStabilizers == bad # "NaiveVerificationMeasuresAllStabilizers"
PrintsTheResult == bad # "PrintsTheResult"
OneRowPerErrorRate == bad # "OneRowPerErrorRate"
PassesTheArguments == bad # "PassesTheArguments"
EveryErrorRateOnce == bad # "EveryErrorRateOnce"
CoversTheRange == bad # "CoversTheRange"
NamesTheColumns == bad # "NamesTheColumns"
=============================================================================
