------------------------------- MODULE EccRun ----------------------------------
(* What the command line reports for a circuit of gates that permute basis  *)
(* states or only change phases, after Hadamards on fresh qubits. The       *)
(* populations of the basis states are a bag of equally likely branches;    *)
(* noise of strength 1 or 1/2 splits every branch into equally likely ones. *)
(* With a code and no noise the report is that of the circuit itself.       *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, bag, bad
vars == <<c, i, bag, bad>>
C == Cases[c]
Pow2(n) == 2 ^ n
Bit(v, q) == (v \div Pow2(q)) % 2
Flip(v, q) == IF Bit(v, q) = 1 THEN v - Pow2(q) ELSE v + Pow2(q)
Zero(v, q) == IF Bit(v, q) = 1 THEN v - Pow2(q) ELSE v
Swap(v, a, b) == IF Bit(v, a) = Bit(v, b) THEN v ELSE Flip(Flip(v, a), b)
Act(g, v) == LET q == g.q IN
  CASE g.name \in {"x", "y", "flip"} -> Flip(v, q[1])
    [] g.name = "cx" -> IF Bit(v, q[1]) = 1 THEN Flip(v, q[2]) ELSE v
    [] g.name = "cy" -> IF Bit(v, q[1]) = 1 THEN Flip(v, q[2]) ELSE v
    [] g.name = "ccx" -> IF Bit(v, q[1]) = 1 /\ Bit(v, q[2]) = 1 THEN Flip(v, q[3]) ELSE v
    [] g.name = "swap" -> Swap(v, q[1], q[2])
    [] g.name = "cswap" -> IF Bit(v, q[1]) = 1 THEN Swap(v, q[2], q[3]) ELSE v
    [] OTHER -> v \* phases
\* what a letter does to a bit, as equally likely alternatives
Kinds(l) == IF C.half THEN CASE l = "B" -> <<"id", "flip">> [] l = "P" -> <<"id">> [] l = "D" -> <<"id", "id", "id", "flip">> [] l = "A" -> <<"id", "zero">>
            ELSE CASE l = "B" -> <<"flip">> [] l = "P" -> <<"id">> [] l = "D" -> <<"id", "flip">> [] l = "A" -> <<"zero">>
Do(k, v, q) == IF k = "flip" THEN Flip(v, q) ELSE IF k = "zero" THEN Zero(v, q) ELSE v
\* the bag with every branch split by the alternatives
Split(b, ks, q) == LET n == Len(ks) IN [j \in 1..(n * Len(b)) |-> Do(ks[((j - 1) % n) + 1], b[((j - 1) \div n) + 1], q)]
RECURSIVE Letters(_, _, _)
Letters(b, l, q) == IF l > Len(C.model) THEN b ELSE Letters(TLCEval(Split(b, Kinds(C.model[l]), q)), l + 1, q)
RECURSIVE Qubits(_, _, _)
Qubits(b, qs, j) == IF j > Len(qs) THEN b ELSE Qubits(TLCEval(Letters(b, 1, qs[j])), qs, j + 1)
Gate(b, g) == LET a == TLCEval(IF g.name = "h" THEN Split(b, <<"id", "flip">>, g.q[1]) ELSE [j \in 1..Len(b) |-> Act(g, b[j])])
              IN IF g.noisy THEN Qubits(a, g.q, 1) ELSE a
RECURSIVE Outcome(_, _)
Outcome(v, j) == IF j > Len(C.meas) THEN 0
                 ELSE Bit(v, C.meas[j][1]) * Pow2(C.meas[j][2]) + Outcome(v, j + 1)
Expected(s) == Cardinality({j \in 1..Len(bag) : Outcome(bag[j], 1) = s})
Outcomes == {Outcome(bag[j], 1) : j \in 1..Len(bag)}
Lines == C.lines
Reported(s) == IF \E j \in 1..Len(Lines) : Lines[j].state = s THEN (CHOOSE j \in 1..Len(Lines) : Lines[j].state = s) ELSE 0
Count(s) == IF Reported(s) = 0 THEN 0 ELSE Lines[Reported(s)].count
RECURSIVE Total(_)
Total(j) == IF j > Len(Lines) THEN 0 ELSE Lines[j].count + Total(j + 1)
\* within seven standard deviations of a binomial: n shots, chance e of m
Near(k, e, m) == LET d == 10 * k - (10 * C.shots * e) \div m
                     v == (((100 * C.shots * e) \div m) * (m - e)) \div m \* a hundred times the variance
                 IN IF e = m THEN k = C.shots ELSE d * d <= 49 * v + 900
EndWrong ==
  IF C.status # "ok" THEN "NoException"
  ELSE IF \E j \in 1..Len(Lines) : Lines[j].width # C.width THEN "StatesOfTheFirstRegister"
  ELSE IF Total(1) # C.shots THEN "EveryShotCounted"
  ELSE IF \E j \in 1..Len(Lines) : Lines[j].state \notin Outcomes THEN "OnlyPossibleOutcomes"
  ELSE IF \E s \in Outcomes : ~Near(Count(s), Expected(s), Len(bag)) THEN "OutcomesAtTheirRates"
  ELSE IF ~C.again THEN "SeedReproduces"
  ELSE ""
Init == c \in 1..Len(Cases) /\ i = 1 /\ bag = <<0>> /\ bad = ""
Step == /\ bad = "" /\ C.kind = "run" /\ i <= Len(C.ops)
        /\ \E b \in {Gate(bag, C.ops[i])} : bag' = b
        /\ i' = i + 1 /\ UNCHANGED <<c, bad>>
Judge == bad = "" /\ C.kind = "run" /\ i = Len(C.ops) + 1 /\ bad' = EndWrong /\ i' = i + 1 /\ UNCHANGED <<c, bag>>
\* the exported circuit is the encoded one
Export == /\ bad = "" /\ C.kind = "export" /\ i = 1
          /\ bad' = IF C.status # "ok" THEN "NoException" ELSE IF C.exported # C.encoded THEN "ExportsTheEncodedCircuit" ELSE ""
          /\ i' = 2 /\ UNCHANGED <<c, bag>>
Finished == (bad # "" \/ (C.kind = "run" /\ i = Len(C.ops) + 2) \/ (C.kind = "export" /\ i = 2)) /\ UNCHANGED vars
Next == Step \/ Judge \/ Export \/ Finished
NoException == bad # "NoException"
StatesOfTheFirstRegister == bad # "StatesOfTheFirstRegister"
EveryShotCounted == bad # "EveryShotCounted"
OnlyPossibleOutcomes == bad # "OnlyPossibleOutcomes"
OutcomesAtTheirRates == bad # "OutcomesAtTheirRates"
SeedReproduces == bad # "SeedReproduces"
ExportsTheEncodedCircuit == bad # "ExportsTheEncodedCircuit"
=============================================================================
