----------------------------- MODULE PrepCircuit -----------------------------
(* Circuits of H, CX and measurements that prepare, verify or measure       *)
(* stabilizers. One behaviour runs a circuit backwards: it pulls back the   *)
(* stabilizers of the wanted state and the measured observables to the      *)
(* inputs, and for every qubit keeps what an X or Z error at this point     *)
(* ends in (the part of the final error that matters and the measurements   *)
(* it flips), collecting the effects of all single faults. Then it combines *)
(* faults, one more in every step, and judges what they may end in; and the *)
(* fault sets that the code computes.                                       *)
EXTENDS Gf2Wide, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, pos, obs, ex, ez, single, layer, light, w, bad
vars == <<c, phase, pos, obs, ex, ez, single, layer, light, w, bad>>
C == Cases[c]
Ops == C.ops
NM == C.nmeas
S(s) == {s[i] : i \in 1..Len(s)}
Sym(a, b) == (a \ b) \cup (b \ a)

\* effects: <<parities with C.kx, parities with C.kz, measurements flipped>>
NoEffect == <<WZero(Len(C.kx)), WZero(Len(C.kz)), WZero(NM)>>
Plus(a, b) == <<WXor(a[1], b[1]), WXor(a[2], b[2]), WXor(a[3], b[3])>>
In_(K, q) == LET s == SelectSeq([i \in 1..Len(K) |-> i], LAMBDA i : q \in S(K[i])) IN [j \in 1..Len(s) |-> s[j] - 1]
EndX(q) == <<WOf(Len(C.kx), In_(C.kx, q)), WZero(Len(C.kz)), WZero(NM)>>
EndZ(q) == <<WZero(Len(C.kx)), WOf(Len(C.kz), In_(C.kz, q)), WZero(NM)>>

\* observables: X and Z support, sign, name (0: wanted state, m: measurement m), alive
PullH(o, a) == LET xa == a \in o.x  za == a \in o.z IN
               [o EXCEPT !.x = IF xa = za THEN o.x ELSE Sym(o.x, {a}), !.z = IF xa = za THEN o.z ELSE Sym(o.z, {a}),
                         !.s = IF xa /\ za THEN 1 - o.s ELSE o.s]
PullCX(o, a, b) ==
  LET xa == a \in o.x  zb == b \in o.z
      flip == xa /\ zb /\ ((b \in o.x) = (a \in o.z)) IN
  [o EXCEPT !.x = IF xa THEN Sym(o.x, {b}) ELSE o.x, !.z = IF zb THEN Sym(o.z, {a}) ELSE o.z, !.s = IF flip THEN 1 - o.s ELSE o.s]
Pull(o, op) ==
  CASE op[1] = "h" -> PullH(o, op[2])
    [] op[1] = "cx" -> PullCX(o, op[2], op[3])
    [] op[1] = "x" -> IF op[2] \in o.z THEN [o EXCEPT !.s = 1 - o.s] ELSE o
    [] op[1] = "z" -> IF op[2] \in o.x THEN [o EXCEPT !.s = 1 - o.s] ELSE o
    [] op[1] = "measure" -> IF op[2] \in o.x THEN [o EXCEPT !.alive = FALSE] ELSE o
    [] op[1] = "reset" -> IF op[2] \in o.x THEN [o EXCEPT !.alive = FALSE] ELSE [o EXCEPT !.z = o.z \ {op[2]}]

Known(op) == op[1] \in {"h", "cx", "x", "z", "measure", "reset"}
Bits_ == LET m == SelectSeq(Ops, LAMBDA op : op[1] = "measure") IN [i \in 1..Len(m) |-> m[i][3]]
CircuitWrong ==
  IF \E i \in 1..Len(Ops) : ~Known(Ops[i]) \/ Ops[i][2] < 0 \/ Ops[i][2] >= C.nq \/ (Ops[i][1] = "cx" /\ (Ops[i][3] = Ops[i][2] \/ Ops[i][3] < 0 \/ Ops[i][3] >= C.nq)) THEN "KnownOperations"
  ELSE IF Len(Bits_) # NM \/ Cardinality(S(Bits_)) # NM \/ S(Bits_) # S(C.bits) THEN "MeasurementsKeepTheirBits"
  ELSE ""
Wanted == [i \in 1..Len(C.wanted) |-> [x |-> S(C.wanted[i].x), z |-> S(C.wanted[i].z), s |-> 0, name |-> -i, alive |-> TRUE]]

Init == /\ c \in 1..Len(Cases) /\ phase = "start" /\ pos = 0 /\ obs = <<>> /\ ex = <<>> /\ ez = <<>> /\ single = {} /\ layer = <<>> /\ light = {}
        /\ w = 0 /\ bad = ""
Start == /\ bad = "" /\ phase = "start" /\ phase' = "back" /\ UNCHANGED <<c, single, layer, light, w>>
         /\ bad' = CircuitWrong /\ pos' = Len(Ops) /\ obs' = Wanted
         /\ ex' = [q \in 1..C.nq |-> TLCEval(EndX(q - 1))] /\ ez' = [q \in 1..C.nq |-> TLCEval(EndZ(q - 1))]

MeasuredBefore(p) == Cardinality({i \in 1..p : Ops[i][1] = "measure"})
Faults2(a, b) == {a, b, Plus(a, b)}
Back ==
  /\ bad = "" /\ phase = "back" /\ pos > 0 /\ pos' = pos - 1 /\ UNCHANGED <<c, phase, layer, light, w, bad>>
  /\ LET op == Ops[pos]  a == op[2] + 1  m == MeasuredBefore(pos)
         pulled == [i \in 1..Len(obs) |-> Pull(obs[i], op)] IN
     /\ obs' = IF op[1] = "measure" THEN Append(pulled, [x |-> {}, z |-> {op[2]}, s |-> 0, name |-> m, alive |-> TRUE]) ELSE pulled
     /\ CASE op[1] = "cx" -> LET b == op[3] + 1 IN
               /\ single' = single \cup Faults2(ex[a], ex[b]) \cup Faults2(ez[a], ez[b])
               /\ ex' = [ex EXCEPT ![a] = Plus(ex[a], ex[b])] /\ ez' = [ez EXCEPT ![b] = Plus(ez[a], ez[b])]
          [] op[1] = "h" -> single' = single \cup {ex[a], ez[a]} /\ ex' = [ex EXCEPT ![a] = ez[a]] /\ ez' = [ez EXCEPT ![a] = ex[a]]
          [] op[1] = "measure" -> LET f == Plus(ex[a], <<WZero(Len(C.kx)), WZero(Len(C.kz)), WUnit(NM, m - 1)>>) IN
               single' = single \cup {f, ez[a]} /\ ex' = [ex EXCEPT ![a] = f] /\ UNCHANGED ez
          [] op[1] = "reset" -> single' = single \cup {ex[a], ez[a]} /\ ex' = [ex EXCEPT ![a] = NoEffect] /\ ez' = [ez EXCEPT ![a] = NoEffect]
          [] OTHER -> UNCHANGED <<single, ex, ez>>
\* at the inputs: qubits of C.open carry any state, all others are |0>
ObsWrong(o) ==
  LET e == IF o.name < 0 THEN C.input[-o.name] ELSE C.minput[o.name]
      open == S(C.open)
      ok == o.alive /\ o.s = 0 /\ o.x \ open = {} /\ o.x = S(e.x) /\ o.z \cap open = S(e.z)
  IN IF ok THEN "" ELSE IF o.name < 0 THEN "PreparesTheState" ELSE "MeasurementsAreCertain"
ProjX == LET nz == {e \in single : ~WIsZero(e[1])}
             mx == {i \in 0..(NM - 1) : \E e \in nz : WAt(e[3], i) = 1}
         IN {<<e[1], e[3]>> : e \in nz \cup {f \in single : \E i \in mx : WAt(f[3], i) = 1}}
ProjZ == LET nz == {e \in single : ~WIsZero(e[2])}
             mx == {i \in 0..(NM - 1) : \E e \in nz : WAt(e[3], i) = 1}
         IN {<<e[2], e[3]>> : e \in nz \cup {f \in single : \E i \in mx : WAt(f[3], i) = 1}}
Inputs ==
  /\ bad = "" /\ phase = "back" /\ pos = 0 /\ UNCHANGED <<c, pos, obs, ex, ez>>
  /\ bad' = LET wr == {ObsWrong(obs[i]) : i \in 1..Len(obs)} \ {""} IN IF wr = {} THEN "" ELSE CHOOSE x \in wr : TRUE
  \* faults at the inputs count as well
  /\ single' = single \cup {ex[q] : q \in 1..C.nq} \cup {ez[q] : q \in 1..C.nq} /\ phase' = "faultsX" /\ w' = 0 /\ layer' = <<>> /\ light' = {}

\* what k faults can end in, up to the flips of measurements that count as detection
Zero2(k) == <<WZero(IF k = "X" THEN Len(C.kx) ELSE Len(C.kz)), WZero(NM)>>
Kind == IF phase \in {"faultsX", "lightX", "setX"} THEN "X" ELSE "Z"
Judged == IF Kind = "X" THEN C.allowx ELSE C.allowz
Detects(m) == \E i \in S(C.flags) : WAt(m, i) = 1
K == Len(Judged)
\* faults that are added to those of the circuit
Unit(q) == IF Kind = "X" THEN EndX(q)[1] ELSE EndZ(q)[2]
KeyOf(s) == LET RECURSIVE F(_, _)
                F(i, acc) == IF i > Len(s) THEN acc ELSE F(i + 1, WXor(acc, Unit(s[i])))
            IN F(1, Zero2(Kind)[1])
Extra == LET e == IF Kind = "X" THEN C.extrax ELSE C.extraz IN {<<KeyOf(e[i]), WZero(NM)>> : i \in 1..Len(e)}
\* layers 1..K of fault combinations; without fault sets to judge only the undetected ones of the last layer are needed
Faults ==
  /\ bad = "" /\ phase \in {"faultsX", "faultsZ"} /\ UNCHANGED <<c, pos, obs, ex, ez, single, w, bad>>
  /\ IF Len(layer) < K
     THEN /\ layer' = Append(layer, LET base == (IF Kind = "X" THEN ProjX ELSE ProjZ) \cup Extra IN
                                    IF layer = <<>> THEN base ELSE {<<WXor(a[1], b[1]), WXor(a[2], b[2])>> : a \in layer[Len(layer)], b \in base})
          /\ UNCHANGED <<phase, light>>
     ELSE phase' = (IF Kind = "X" THEN "lightX" ELSE "lightZ") /\ light' = {Zero2(Kind)[1]} /\ UNCHANGED layer
\* errors of weight up to w; k faults may end in errors of weight Judged[k]
Undetected(k) == {e[1] : e \in {f \in layer[k] : ~Detects(f[2])}}
SetsOf(k) == {i \in 1..Len(C.sets) : C.sets[i].kind = k}
Keys(fs) == TLCEval({KeyOf(fs.faults[i]) : i \in 1..Len(fs.faults)})
\* judged when light holds the errors of weight up to w
JudgeAt ==
  LET ks == {k \in 1..K : Judged[k] = w} IN
  IF \E k \in ks : C.judge /\ Undetected(k) \ light # {} THEN IF Kind = "X" THEN "FewFaultsSpreadLittleX" ELSE "FewFaultsSpreadLittleZ"
  ELSE IF \E i \in SetsOf(Kind) : C.sets[i].k \in ks /\ ({e[1] : e \in layer[C.sets[i].k]} \ light) \ Keys(C.sets[i]) # {} THEN "FaultSetComplete"
  ELSE IF \E i \in SetsOf(Kind) : C.sets[i].k \in ks /\ Keys(C.sets[i]) \ UNION {{e[1] : e \in layer[j]} : j \in 1..C.sets[i].k} # {} THEN "FaultSetSound"
  ELSE IF \E i \in SetsOf(Kind) : C.sets[i].k \in ks /\ Keys(C.sets[i]) \cap light # {} THEN "FaultSetLeavesOutSmallOnes"
  ELSE IF \E i \in SetsOf(Kind) : C.sets[i].k \in ks /\ C.sets[i].reduced /\ Cardinality(Keys(C.sets[i])) # Len(C.sets[i].faults) THEN "FaultSetReduced"
  ELSE ""
\* representatives are lightest: with weight w + 1 they are not equivalent to an error of weight up to w
Heavier == IF \E i \in SetsOf(Kind) : \E f \in 1..Len(C.sets[i].faults) :
                 Len(C.sets[i].faults[f]) = w + 1 /\ KeyOf(C.sets[i].faults[f]) \in light
           THEN "FaultSetLeaders" ELSE ""
MaxW == LET a == {Judged[k] : k \in 1..K}  b == {Len(C.sets[i].faults[f]) - 1 : <<i, f>> \in {p \in SetsOf(Kind) \X (1..C.nfaults) : p[2] <= Len(C.sets[p[1]].faults)}}
        IN IF a \cup b = {} THEN -1 ELSE CHOOSE x \in a \cup b : \A y \in a \cup b : x >= y
Light ==
  /\ bad = "" /\ phase \in {"lightX", "lightZ"} /\ UNCHANGED <<c, pos, obs, ex, ez, single>>
  /\ IF w <= MaxW
     THEN /\ bad' = IF JudgeAt # "" THEN JudgeAt ELSE Heavier
          /\ w' = w + 1 /\ light' = light \cup {WXor(v, Unit(q)) : v \in light, q \in S(C.data)} /\ UNCHANGED <<phase, layer>>
     ELSE bad' = "" /\ w' = 0 /\ light' = {} /\ layer' = <<>> /\ phase' = (IF Kind = "X" THEN "faultsZ" ELSE "done")
Finished == bad = "" /\ phase = "done" /\ UNCHANGED vars
Next == Start \/ Back \/ Inputs \/ Faults \/ Light \/ Finished

KnownOperations == bad # "KnownOperations"
MeasurementsKeepTheirBits == bad # "MeasurementsKeepTheirBits"
PreparesTheState == bad # "PreparesTheState"
MeasurementsAreCertain == bad # "MeasurementsAreCertain"
FewFaultsSpreadLittleX == bad # "FewFaultsSpreadLittleX"
FewFaultsSpreadLittleZ == bad # "FewFaultsSpreadLittleZ"
FaultSetComplete == bad # "FaultSetComplete"
FaultSetSound == bad # "FaultSetSound"
FaultSetLeavesOutSmallOnes == bad # "FaultSetLeavesOutSmallOnes"
FaultSetReduced == bad # "FaultSetReduced"
FaultSetLeaders == bad # "FaultSetLeaders"
=============================================================================
