----------------------------- MODULE NoiseChannels -----------------------------
(* The channel of a noise model: its letters are applied from left to       *)
(* right, each an affine map of the Bloch ball; gates on several qubits     *)
(* have the same channel on each of their qubits, independently. Recorded   *)
(* channels are given by their Pauli transfer matrices in ten thousandths.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, i, map, bad
vars == <<c, i, map, bad>>
C == Cases[c]
One == 10000
Mul(a, b) == (a * b) \div One
\* x, y, z |-> fx x, fy y, fz z + d
Letter(l) == LET p == C.p  q == One - C.p IN
  CASE l = "B" -> [fx |-> One, fy |-> One - 2 * p, fz |-> One - 2 * p, d |-> 0]
    [] l = "P" -> [fx |-> One - 2 * p, fy |-> One - 2 * p, fz |-> One, d |-> 0]
    [] l = "D" -> [fx |-> q, fy |-> q, fz |-> q, d |-> 0]
    [] l = "A" -> [fx |-> C.root, fy |-> C.root, fz |-> q, d |-> p]
Known == {"B", "P", "D", "A"}
\* m after the letter
After(m, l) == [fx |-> Mul(l.fx, m.fx), fy |-> Mul(l.fy, m.fy), fz |-> Mul(l.fz, m.fz), d |-> Mul(l.fz, m.d) + l.d]
\* entry of the transfer matrix of one qubit, rows and columns I X Y Z
Entry(m, r, k) == IF r = 0 /\ k = 0 THEN One ELSE IF r = 3 /\ k = 0 THEN m.d
                  ELSE IF r # k THEN 0 ELSE IF r = 1 THEN m.fx ELSE IF r = 2 THEN m.fy ELSE m.fz
RECURSIVE Tensor(_, _, _, _)
Tensor(m, n, r, k) == IF n = 0 THEN One ELSE Mul(Entry(m, r % 4, k % 4), Tensor(m, n - 1, r \div 4, k \div 4))
Dim(n) == IF n = 1 THEN 4 ELSE IF n = 2 THEN 16 ELSE 64
Listed == {<<"u1", 1>>, <<"u2", 1>>, <<"u3", 1>>, <<"h", 1>>, <<"id", 1>>, <<"t", 1>>, <<"tdg", 1>>, <<"sdg", 1>>, <<"rx", 1>>, <<"ry", 1>>,
           <<"rz", 1>>, <<"s", 1>>, <<"cx", 2>>, <<"swap", 2>>, <<"cswap", 3>>}
Close(a, b) == a - b <= 12 /\ b - a <= 12
\* the recorded matrices, each with the gates that have it
SameChannel(g) == /\ Len(g.ptm) = Dim(g.n)
                  /\ \A r \in 1..Dim(g.n) : \A k \in 1..Dim(g.n) : Close(g.ptm[r][k], Tensor(map, g.n, r - 1, k - 1))
EndWrong == IF C.status # "ok" THEN "NoException"
            ELSE IF map # [fx |-> One, fy |-> One, fz |-> One, d |-> 0] /\ \E l \in Listed : ~\E g \in 1..Len(C.gates) : C.gates[g].n = l[2] /\ \E x \in 1..Len(C.gates[g].names) : C.gates[g].names[x] = l[1] THEN "ListedGatesAreNoisy"
            ELSE IF \E g \in 1..Len(C.gates) : ~SameChannel(C.gates[g]) THEN "ChannelsInTheirOrder"
            ELSE ""
Unknown == \E j \in 1..Len(C.model) : C.model[j] \notin Known
Init == /\ c \in 1..Len(Cases) /\ i = 1 /\ map = [fx |-> One, fy |-> One, fz |-> One, d |-> 0] /\ bad = ""
Apply == /\ bad = "" /\ ~Unknown /\ i <= Len(C.model)
         /\ map' = After(map, Letter(C.model[i])) /\ i' = i + 1 /\ UNCHANGED <<c, bad>>
Judge == /\ bad = "" /\ (Unknown \/ i = Len(C.model) + 1) /\ i < 100
         /\ bad' = IF Unknown THEN (IF C.status = "ok" THEN "UnknownErrorRefused" ELSE "") ELSE EndWrong
         /\ i' = 100 /\ UNCHANGED <<c, map>>
Finished == (bad # "" \/ i = 100) /\ UNCHANGED vars
Next == Apply \/ Judge \/ Finished
NoException == bad # "NoException"
ListedGatesAreNoisy == bad # "ListedGatesAreNoisy"
ChannelsInTheirOrder == bad # "ChannelsInTheirOrder"
UnknownErrorRefused == bad # "UnknownErrorRefused"
=============================================================================
