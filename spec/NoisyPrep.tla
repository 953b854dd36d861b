------------------------------ MODULE NoisyPrep ------------------------------
(* The noisy simulation of a preparation circuit and the lookup table       *)
(* decoder it uses. "structure": the circuit is run layer by layer and      *)
(* gives for every qubit the gates and the noise between them, which the    *)
(* simulated circuit has to have. "fault": a Pauli frame is carried through *)
(* the simulated circuit from the inserted faults on; what it does to the   *)
(* verification measurements and, after decoding, to the logical operators  *)
(* is what the simulation has to report. "decode": the errors of every      *)
(* weight, layer by layer, give the least weight for every syndrome.        *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, pos, st, bad
vars == <<c, phase, pos, st, bad>>
C == Cases[c]
N == C.n
NQ == C.nq
Qubits == 0..(NQ - 1)

\* ------------------------------------------------------------ structure
Ops == C.ops
\* layer of every operation: one more than what it waits for (qubits and classical bits)
RECURSIVE LayersFrom(_, _, _, _)
LayersFrom(i, lq, lc, out) ==
  IF i > Len(Ops) THEN out
  ELSE LET op == Ops[i]
           a == lq[op[2]]
           b == IF op[1] = "cx" THEN lq[op[3]] ELSE IF op[1] = "measure" THEN lc[op[3]] ELSE 0
           l == 1 + (IF a > b THEN a ELSE b)
       IN LayersFrom(i + 1, IF op[1] = "cx" THEN [lq EXCEPT ![op[2]] = l, ![op[3]] = l] ELSE [lq EXCEPT ![op[2]] = l],
                     IF op[1] = "measure" THEN [lc EXCEPT ![op[3]] = l] ELSE lc, Append(out, l))
Layers == LayersFrom(1, [q \in Qubits |-> 0], [b \in 0..Len(Ops) |-> 0], <<>>)

\* a segment: a gate <<name, partner, role>> and the noise that follows it on this qubit, as counts
Clean == [d1 |-> 0, x |-> 0, z |-> 0, d2 |-> {}]
Fresh == <<[gate |-> <<"start">>, noise |-> Clean]>>
GateOn(w, q, g) == [w EXCEPT ![q] = Append(@, [gate |-> g, noise |-> Clean])]
Noise(w, q, f) == [w EXCEPT ![q] = [@ EXCEPT ![Len(@)].noise = [@ EXCEPT ![f] = @ + 1]]]
Noise2(w, q, r) == [w EXCEPT ![q] = [@ EXCEPT ![Len(@)].noise = [@ EXCEPT !.d2 = @ \cup {<<r, Len(w[q])>>}]]]

\* wanted: state [want, init, plus, used]
Initialise(s, q) ==
  IF q \in s.init THEN s
  ELSE [s EXCEPT !.want = IF q \in s.plus THEN Noise(GateOn(@, q, <<"H">>), q, "z") ELSE Noise(@, q, "x"), !.init = @ \cup {q}, !.plus = @ \ {q}]
WantOp(s, op) ==
  CASE op[1] = "h" -> IF op[2] \in s.init THEN [s EXCEPT !.want = Noise(GateOn(@, op[2], <<"H">>), op[2], "d1"), !.used = @ \cup {op[2]}]
                      ELSE [s EXCEPT !.plus = IF op[2] \in @ THEN @ \ {op[2]} ELSE @ \cup {op[2]}]
    [] op[1] = "cx" -> LET a == op[2]  b == op[3]  t == Initialise(Initialise(s, a), b) IN
                       [t EXCEPT !.want = Noise2(Noise2(GateOn(GateOn(@, a, <<"CX", b, "control">>), b, <<"CX", a, "target">>), a, b), b, a),
                                 !.used = @ \cup {a, b}]
    [] op[1] = "measure" -> [s EXCEPT !.want = GateOn(Noise(@, op[2], "x"), op[2], <<"MR">>), !.used = @ \cup {op[2]}, !.init = @ \ {op[2]}]
RECURSIVE WantAll(_, _, _)
WantAll(s, is, i) == IF i > Len(is) THEN s ELSE WantAll(WantOp(s, Ops[is[i]]), is, i + 1)
InLayer(l) == SelectSeq([i \in 1..Len(Ops) |-> i], LAMBDA i : Layers[i] = l)
RECURSIVE Idle(_, _)
Idle(w, Q) == IF Q = {} THEN w ELSE LET q == CHOOSE q \in Q : TRUE IN Idle(Noise(w, q, "d1"), Q \ {q})
NLayers == IF Ops = <<>> THEN 0 ELSE LET L == Range(Layers) IN CHOOSE l \in L : \A k \in L : l >= k
RECURSIVE InitAll(_, _)
InitAll(s, q) == IF q >= N THEN s ELSE InitAll(Initialise(s, q), q + 1)
\* without parallel gates idle noise is judged on its own
NoIdle(w) == [q \in Qubits |-> [i \in 1..Len(w[q]) |-> [w[q][i] EXCEPT !.noise.d1 = 0]]]

\* what the simulated circuit has: C.head = [name, a, b, strength] with strength "0", "p", "2p/3" or "other"
GotOp(w, h) ==
  CASE h[1] = "CX" -> GateOn(GateOn(w, h[2], <<"CX", h[3], "control">>), h[3], <<"CX", h[2], "target">>)
    [] h[1] \in {"H", "MR"} -> GateOn(w, h[2], <<h[1]>>)
    [] h[1] = "X_ERROR" -> Noise(w, h[2], "x")
    [] h[1] = "Z_ERROR" -> Noise(w, h[2], "z")
    [] h[1] = "DEPOLARIZE1" -> Noise(w, h[2], "d1")
    [] h[1] = "DEPOLARIZE2" -> Noise2(Noise2(w, h[2], h[3]), h[3], h[2])
Strength(h) == CASE h[1] \in {"CX", "H", "MR"} -> "0" [] h[1] = "DEPOLARIZE2" -> "p" [] h[1] \in {"X_ERROR", "Z_ERROR", "DEPOLARIZE1"} -> "2p/3" [] OTHER -> "none"
RECURSIVE GotAll(_, _)
GotAll(w, i) == IF i > Len(C.head) THEN w ELSE GotAll(TLCEval(GotOp(w, C.head[i])), i + 1)

\* one gate at a time: every other initialised qubit idles exactly once after each gate; state [seen: idled since the gate,
\* gate: qubits of the last gate, init, plain: qubits whose H only initialises]
RECURSIVE SerialFrom(_, _)
SerialFrom(i, s) ==
  LET done == s.gate = {} \/ s.seen = s.init \ s.gate IN
  IF i > Len(C.head) THEN done
  ELSE LET h == C.head[i]
           q == h[2]
           prepares == h[1] \in {"X_ERROR", "H"} /\ q \notin s.init
       IN IF prepares THEN SerialFrom(i + 1, s)
          ELSE IF h[1] = "Z_ERROR" \/ h[1] = "X_ERROR" \/ h[1] = "DEPOLARIZE2" THEN SerialFrom(i + 1, s)
          ELSE IF h[1] = "DEPOLARIZE1"
            THEN IF q \in s.gate /\ s.h /\ ~s.own THEN SerialFrom(i + 1, [s EXCEPT !.own = TRUE])
                 ELSE IF q \in s.seen \/ q \in s.gate \/ q \notin s.init THEN FALSE ELSE SerialFrom(i + 1, [s EXCEPT !.seen = @ \cup {q}])
          ELSE IF ~done THEN FALSE
          ELSE LET g == IF h[1] = "CX" THEN {q, h[3]} ELSE {q} IN
               SerialFrom(i + 1, [seen |-> {}, gate |-> g, own |-> FALSE, h |-> h[1] = "H", init |-> IF h[1] = "MR" THEN s.init \ g ELSE s.init \cup g])

\* qubits are initialised just before their first gate, so those of the gate itself do not idle before it
StructureWrong ==
  LET got == GotAll([q \in Qubits |-> Fresh], 1) IN
  IF \E i \in 1..Len(C.head) : Strength(C.head[i]) # C.head[i][4] THEN "NoiseStrength"
  ELSE IF \E q \in Qubits : [i \in 1..Len(got[q]) |-> got[q][i].gate] # [i \in 1..Len(st.want[q]) |-> st.want[q][i].gate] THEN "GatesOfTheCircuit"
  ELSE IF NoIdle(got) # NoIdle(st.want) THEN "NoiseOfTheGates"
  ELSE IF C.parallel THEN IF got # st.want THEN "IdlingQubitsAreNoisy" ELSE ""
  ELSE IF ~SerialFrom(1, [seen |-> {}, gate |-> {}, init |-> {}, h |-> FALSE, own |-> FALSE]) THEN "IdlingQubitsAreNoisy" ELSE ""

\* ------------------------------------------------------------ faults
\* frame: masks of the qubits with an X or Z error; flips: records that are flipped
Toggle(Q, q) == IF q \in Q THEN Q \ {q} ELSE Q \cup {q}
FrameOp(s, h) ==
  CASE h[1] = "CX" -> [s EXCEPT !.x = IF h[2] \in s.x THEN Toggle(@, h[3]) ELSE @, !.z = IF h[3] \in s.z THEN Toggle(@, h[2]) ELSE @]
    [] h[1] = "H" -> [s EXCEPT !.x = IF h[2] \in s.z THEN s.x \cup {h[2]} ELSE s.x \ {h[2]}, !.z = IF h[2] \in s.x THEN s.z \cup {h[2]} ELSE s.z \ {h[2]}]
    [] h[1] = "MR" -> [s EXCEPT !.flips = Append(@, IF h[2] \in s.x THEN 1 ELSE 0), !.x = @ \ {h[2]}, !.z = @ \ {h[2]}]
    [] h[1] = "X" -> [s EXCEPT !.x = Toggle(@, h[2])]
    [] h[1] = "Z" -> [s EXCEPT !.z = Toggle(@, h[2])]
    [] h[1] = "Y" -> [s EXCEPT !.x = Toggle(@, h[2]), !.z = Toggle(@, h[2])]
    [] OTHER -> s
MaskOf(Q) == LET RECURSIVE F(_, _)
                 F(q, acc) == IF q >= N THEN acc ELSE F(q + 1, IF q \in Q THEN acc + Pow2[q] ELSE acc)
             IN F(0, 0)
\* the decoder's estimate for each syndrome is recorded (and judged on its own): C.lut[syndrome + 1]
FaultWrong ==
  LET e == MaskOf(IF C.zero THEN st.x ELSE st.z)
      res == e ^^ C.lut[SynMaskOf(C.checks, e) + 1]
      caught == \E i \in 1..Len(st.flips) : st.flips[i] = 1
      fails == ~caught /\ \E i \in 1..Len(C.observables) : Par(C.observables[i] & res) = 1
      batches == (C.shots + C.batch - 1) \div C.batch
  IN IF C.status # "ok" THEN "Simulates"
     ELSE IF C.r.shots # C.batch * (IF C.min > 0 THEN (C.min + C.batch - 1) \div C.batch ELSE batches) THEN "ShotsAreCounted"
     ELSE IF C.r.accepted # (IF caught THEN "none" ELSE "all") THEN "AcceptedIffNothingIsDetected"
     ELSE IF C.r.errors # (IF fails THEN C.r.shots ELSE 0) THEN "CountsLogicalErrors"
     ELSE IF C.r.rate # (IF fails THEN "1/k" ELSE "0") THEN "RatePerLogicalQubit"
     ELSE ""

\* ------------------------------------------------------------ decoding
\* layers of syndromes for both kinds: dist[kind][w + 1]
ColOf(rows, b) == LET RECURSIVE F(_, _)
                      F(i, acc) == IF i > Len(rows) THEN acc ELSE F(i + 1, acc + Bit(rows[i], b) * Pow2[i - 1])
                  IN F(1, 0)
NextLayer(rows, d) == {s ^^ ColOf(rows, b) : s \in d[Len(d)], b \in 0..(N - 1)} \ UNION {d[i] : i \in 1..Len(d)}
D == C.trace[pos]
RowsFor(kind) == IF kind = "x" THEN C.hz ELSE C.hx
DecodeWrong ==
  LET rows == RowsFor(D.kind)
      est == IF Len(D.est) = N THEN MaskOf({q \in 0..(N - 1) : D.est[q + 1] = 1}) ELSE 0
      w == {i \in 1..Len(st[D.kind]) : D.syn \in st[D.kind][i]}
  IN IF D.status # "ok" THEN "DecodesEverySyndrome"
     ELSE IF Len(D.est) # N \/ Range(D.est) \ {0, 1} # {} THEN "EstimateIsAnError"
     ELSE IF SynMaskOf(rows, est) # D.syn THEN "EstimateHasTheSyndrome"
     ELSE IF \E i \in w : Pop(est) # i - 1 THEN "EstimateIsLightest" ELSE ""

\* ------------------------------------------------------------ behaviour
Init == /\ c \in 1..Len(Cases) /\ phase = "run" /\ pos = 1 /\ bad = ""
        /\ st = CASE C.kind = "structure" -> [want |-> [q \in Qubits |-> Fresh], init |-> {}, plus |-> {}, used |-> {}]
                  [] C.kind = "fault" -> [x |-> {}, z |-> {}, flips |-> <<>>]
                  [] C.kind = "decode" -> [x |-> <<{0}>>, z |-> <<{0}>>]
Layer ==
  /\ bad = "" /\ phase = "run" /\ C.kind = "structure" /\ UNCHANGED c
  /\ IF pos <= NLayers
     THEN LET s == WantAll([st EXCEPT !.used = {}], InLayer(pos), 1)
              idle == IF s.used = {} \/ pos = NLayers THEN {} ELSE s.init \ s.used
          IN st' = [s EXCEPT !.want = Idle(@, idle)] /\ pos' = pos + 1 /\ UNCHANGED <<phase, bad>>
     ELSE IF pos = NLayers + 1 THEN st' = InitAll(st, 0) /\ pos' = pos + 1 /\ UNCHANGED <<phase, bad>>
     ELSE bad' = StructureWrong /\ phase' = "done" /\ UNCHANGED <<pos, st>>
Frame ==
  /\ bad = "" /\ phase = "run" /\ C.kind = "fault" /\ UNCHANGED c
  /\ IF pos <= Len(C.head) THEN st' = FrameOp(st, C.head[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<phase, bad>>
     ELSE bad' = FaultWrong /\ phase' = "done" /\ UNCHANGED <<pos, st>>
Decode ==
  /\ bad = "" /\ C.kind = "decode" /\ phase \in {"run", "trace"} /\ UNCHANGED c
  /\ IF phase = "run"
     THEN LET nx == NextLayer(C.hz, st.x)  nz == NextLayer(C.hx, st.z) IN
          IF nx = {} /\ nz = {} THEN phase' = "trace" /\ UNCHANGED <<pos, st, bad>>
          ELSE st' = [x |-> Append(st.x, nx), z |-> Append(st.z, nz)] /\ UNCHANGED <<pos, phase, bad>>
     ELSE IF pos <= Len(C.trace) THEN bad' = DecodeWrong /\ pos' = pos + 1 /\ UNCHANGED <<phase, st>>
     ELSE phase' = "done" /\ UNCHANGED <<pos, st, bad>>
Finished == bad = "" /\ phase = "done" /\ UNCHANGED vars
Next == Layer \/ Frame \/ Decode \/ Finished

NoiseStrength == bad # "NoiseStrength"
GatesOfTheCircuit == bad # "GatesOfTheCircuit"
NoiseOfTheGates == bad # "NoiseOfTheGates"
IdlingQubitsAreNoisy == bad # "IdlingQubitsAreNoisy"
Simulates == bad # "Simulates"
ShotsAreCounted == bad # "ShotsAreCounted"
AcceptedIffNothingIsDetected == bad # "AcceptedIffNothingIsDetected"
CountsLogicalErrors == bad # "CountsLogicalErrors"
RatePerLogicalQubit == bad # "RatePerLogicalQubit"
DecodesEverySyndrome == bad # "DecodesEverySyndrome"
EstimateIsAnError == bad # "EstimateIsAnError"
EstimateHasTheSyndrome == bad # "EstimateHasTheSyndrome"
EstimateIsLightest == bad # "EstimateIsLightest"
=============================================================================
