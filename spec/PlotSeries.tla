----------------------------- MODULE PlotSeries ------------------------------
(* The figures made from result files of the colour code decoders. The      *)
(* files are read one after another; every file adds its points to the      *)
(* series it belongs to, which stay sorted. In the end the figure has to    *)
(* show exactly these series (labels, points, error bars), each threshold   *)
(* has to be the one the results were made with, and solvers and error      *)
(* rates have to be told apart. Rates are hundred thousandths, values       *)
(* millionths.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, pos, series, seen, bad
vars == <<c, pos, series, seen, bad>>
C == Cases[c]

Init == c \in 1..Len(Cases) /\ pos = 1 /\ series = <<>> /\ seen = {} /\ bad = ""

\* series: sequence of [label, what, pts]; what tells series with equal labels apart
Insert(pts, x) == LET before == SelectSeq(pts, LAMBDA y : y[1] <= x[1])  after == SelectSeq(pts, LAMBDA y : y[1] > x[1]) IN before \o <<x>> \o after
Put(ss, label, what, x) ==
  IF \E i \in 1..Len(ss) : ss[i].label = label /\ ss[i].what = what
  THEN [i \in 1..Len(ss) |-> IF ss[i].label = label /\ ss[i].what = what THEN [ss[i] EXCEPT !.pts = Insert(@, x)] ELSE ss[i]]
  ELSE Append(ss, [label |-> label, what |-> what, pts |-> <<x>>])
RECURSIVE PutLogicals(_, _, _, _, _)
PutLogicals(ss, label, what, r, i) ==
  IF i > Len(r.lers) THEN ss ELSE PutLogicals(Put(ss, label, what \o ToString(i), <<r.p, r.lers[i], r.ebs[i]>>), label, what, r, i + 1)

ShownRates == CASE C.mode = "maxsat" -> {100, 2000, 5000, 8000, 13000}
                [] C.mode = "tn" -> {100, 2100, 5100, 8100, 11100}
                [] OTHER -> {100, 5100, 13100}
Scale == 100000
Solver(s) == IF s = "z3" THEN "z3" ELSE "CASHWMaxSAT-CorePlus"
Add(ss, r) ==
  CASE C.mode = "maxsat" ->
         LET a == PutLogicals(ss, "d=" \o ToString(r.d), "rate", r, 1)
             b == Put(a, "d=" \o ToString(r.d), "time", <<r.p, r.t, -1>>)
             d == IF r.p \in ShownRates THEN Put(b, "p=" \o r.ptext, "time", <<r.d * Scale, r.t, -1>>) ELSE b
             e == PutLogicals(d, "d = " \o ToString(r.d), "fit", r, 1)
         IN IF r.p = 1000 THEN Put(e, "p=0.01", "distance", <<r.d * Scale, r.lers[1], -1>>) ELSE e
    [] C.mode = "tn" ->
         LET a == Put(ss, "d=" \o ToString(r.d), "rate", <<r.p, r.lers[1], -1>>)
             b == Put(a, "d=" \o ToString(r.d), "time", <<r.p, r.t, -1>>)
         IN IF r.p \in ShownRates THEN Put(b, "p=" \o r.ptext, "time", <<r.d * Scale, r.t, -1>>) ELSE b
    [] C.mode = "comparison" ->
         LET a == IF r.d \in {17, 21} THEN Put(ss, "solver=" \o r.solver \o ", d=" \o ToString(r.d), "time", <<r.p, r.t, -1>>) ELSE ss
         IN IF r.p \in ShownRates THEN Put(a, "p=" \o r.ptext \o ", " \o Solver(r.solver), r.solver, <<r.d * Scale, r.t, -1>>) ELSE a
    [] OTHER -> ss
Read == /\ bad = "" /\ pos <= Len(C.results) /\ pos' = pos + 1 /\ series' = TLCEval(Add(series, C.results[pos])) /\ seen' = seen \cup {C.results[pos].solver}
        /\ UNCHANGED <<c, bad>>

\* points with equal first coordinates may come in any order
Sorted(pts) == \A i \in 1..(Len(pts) - 1) : pts[i][1] <= pts[i + 1][1]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SamePts(a, b) == Len(a) = Len(b) /\ Sorted(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Fits(s, d) == s.label = d.label /\ SamePts(s.pts, d.pts)
Missing == {i \in 1..Len(series) : Cardinality({j \in 1..Len(series) : Fits(series[j], series[i])}) > Cardinality({k \in 1..Len(C.drawn) : Fits(series[i], C.drawn[k])})}
Extra == {k \in 1..Len(C.drawn) : Cardinality({j \in 1..Len(C.drawn) : Fits(C.drawn[k], C.drawn[j])}) > Cardinality({i \in 1..Len(series) : Fits(series[i], C.drawn[k])})}
Near(a, b) == a - b <= 100 /\ b - a <= 100
Thresholds(found) == Len(found) = Len(C.thresholds) /\ \A i \in 1..Len(found) : Near(found[i], C.thresholds[i])
\* curves of different solvers have different colours, and so have curves of different rates
Distinct == \A i, j \in 1..Len(C.colours) : C.colours[i][1] = C.colours[j][1] /\ C.colours[i][2] # C.colours[j][2] => C.colours[i][3] # C.colours[j][3]
Known == C.mode \in {"maxsat", "tn", "comparison"}
Wrong ==
  IF ~Known THEN IF C.status = "ValueError" THEN "" ELSE "RejectsUnknownModes"
  ELSE IF C.status # "ok" THEN "PlotsAllResults"
  ELSE IF C.saved # 1 THEN "SavesTheFigure"
  ELSE IF Missing # {} THEN "ShowsEveryResult"
  ELSE IF Extra # {} THEN "ShowsOnlyResults"
  ELSE IF ~Thresholds(C.lines) \/ ~Thresholds(C.printed) THEN "FindsTheThreshold"
  ELSE IF ~Distinct THEN "TellsCurvesApart"
  ELSE ""
Judge == /\ bad = "" /\ pos = Len(C.results) + 1 /\ pos' = pos + 1 /\ bad' = Wrong /\ UNCHANGED <<c, series, seen>>
Done == bad = "" /\ pos > Len(C.results) + 1 /\ UNCHANGED vars
Next == Read \/ Judge \/ Done
Spec == Init /\ [][Next]_vars

RejectsUnknownModes == bad # "RejectsUnknownModes"
PlotsAllResults == bad # "PlotsAllResults"
SavesTheFigure == bad # "SavesTheFigure"
ShowsEveryResult == bad # "ShowsEveryResult"
ShowsOnlyResults == bad # "ShowsOnlyResults"
FindsTheThreshold == bad # "FindsTheThreshold"
TellsCurvesApart == bad # "TellsCurvesApart"
=============================================================================
