-------------------------- MODULE StabilizerAlgebra --------------------------
(* Stabilizer codes on at most 10 qubits. A Pauli is a record of two masks  *)
(* and a sign. The stabilizer group is built generator by generator (states *)
(* of the behaviour) together with its signs; codes, their refusals,        *)
(* syndromes, equivalence, equality and hashing are judged against it.      *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, group, k, bad
vars == <<c, phase, group, k, bad>>
C == Cases[c]
N == C.n

\* a string as a sequence of letters without its sign
XMask(p) == LET RECURSIVE F(_, _)
                F(i, acc) == IF i > Len(p) THEN acc ELSE F(i + 1, acc + (IF p[i] \in {"X", "Y"} THEN Pow2[i - 1] ELSE 0))
            IN F(1, 0)
ZMask(p) == LET RECURSIVE F(_, _)
                F(i, acc) == IF i > Len(p) THEN acc ELSE F(i + 1, acc + (IF p[i] \in {"Z", "Y"} THEN Pow2[i - 1] ELSE 0))
            IN F(1, 0)
P(s) == [x |-> XMask(s.p), z |-> ZMask(s.p), s |-> s.sign]
AntiP(a, b) == (Pop(a.x & b.z) + Pop(a.z & b.x)) % 2
\* power of i of  i^(x.z) X^x Z^z  forms: product of two commuting Paulis with their signs
Times(a, b) ==
  LET x == a.x ^^ b.x  z == a.z ^^ b.z
      e == Pop(a.x & a.z) + Pop(b.x & b.z) + 2 * Pop(a.z & b.x) + 3 * Pop(x & z)
  IN [x |-> x, z |-> z, s |-> (a.s + b.s + (e % 4) \div 2) % 2]
Letters == {"I", "X", "Y", "Z"}
WellFormed_(ss) == Len(ss) > 0 /\ \A i \in 1..Len(ss) : Len(ss[i].p) = Len(ss[1].p) /\ Range(ss[i].p) \subseteq Letters
AllCommute(ss) == \A i, j \in 1..Len(ss) : i < j => AntiP(P(ss[i]), P(ss[j])) = 0
Flat(a) == a.x + Pow2[N] * a.z
RowsOf(ss) == [i \in 1..Len(ss) |-> Flat(P(ss[i]))]
RankOf(ss) == Rank(RowsOf(ss))

\* logical operators: both kinds or none, at most one pair per logical qubit, all commute with the stabilizers, and every X
\* anticommutes with exactly one Z and the other way round
LogicalsValid(g, lx, lz, kk) ==
  \/ lx = <<>> /\ lz = <<>>
  \/ /\ lx # <<>> /\ lz # <<>>
     /\ \A l \in Range(lx) \cup Range(lz) : Len(l.p) = N /\ Range(l.p) \subseteq Letters
     /\ Len(lx) <= kk /\ Len(lz) <= kk
     /\ \A l \in Range(lx) \cup Range(lz), s \in Range(g) : AntiP(P(l), P(s)) = 0
     /\ \A i \in 1..Len(lx) : Cardinality({j \in 1..Len(lz) : AntiP(P(lx[i]), P(lz[j])) = 1}) = 1
     /\ \A j \in 1..Len(lz) : Cardinality({i \in 1..Len(lx) : AntiP(P(lx[i]), P(lz[j])) = 1}) = 1

Valid == /\ WellFormed_(C.gens) /\ AllCommute(C.gens) /\ C.distance > 0
         /\ LogicalsValid(C.gens, C.lx, C.lz, N - RankOf(C.gens))

QueryWrong(q) ==
  CASE q.f = "syndrome" ->
         IF q.val # [i \in 1..Len(C.gens) |-> AntiP(P(C.gens[i]), P(q.a))] THEN "SyndromeIsAnticommutation" ELSE ""
    [] q.f = "equivalent" ->
         LET d == [x |-> P(q.a).x ^^ P(q.b).x, z |-> P(q.a).z ^^ P(q.b).z] IN
         IF q.val # (\E g \in group : g.x = d.x /\ g.z = d.z) THEN "EquivalentIffStabilizerApart" ELSE ""
    [] q.f = "strings" ->
         IF Len(q.val) # Len(C.gens) \/ \E i \in 1..Len(C.gens) : P(q.val[i]) # P(C.gens[i]) THEN "StringsShowTheGenerators" ELSE ""
    [] q.f = "commute" -> IF q.val # (AntiP(P(q.a), P(q.b)) = 0) THEN "CommuteIffEvenOverlap" ELSE ""

CodeWrong ==
  IF (C.status = "ok") # Valid THEN IF Valid THEN "ValidCodeAccepted" ELSE "InvalidCodeRefused"
  ELSE IF C.status # "ok" THEN ""
  ELSE IF C.n_ # N \/ C.k_ # N - RankOf(C.gens) THEN "QubitsMinusRank"
  ELSE IF C.distance_ # C.distance THEN "DistanceKept"
  ELSE ""
\* two codes are equal when their stabilizer groups with signs are
PairWrong ==
  LET other == {P(C.gens2[i]) : i \in 1..Len(C.gens2)}
      same == other \subseteq group /\ RankOf(C.gens2) = RankOf(C.gens) /\ Len(C.gens2[1].p) = N
  IN IF C.equal # same \/ C.equal2 # same THEN "EqualIffSameGroup"
     ELSE IF same /\ ~C.hashes THEN "EqualCodesHashAlike"
     ELSE ""

Init == c \in 1..Len(Cases) /\ phase = "judge" /\ group = {} /\ k = 1 /\ bad = ""
Judge == bad = "" /\ phase = "judge" /\ phase' = (IF C.status = "ok" THEN "group" ELSE "done")
         /\ group' = {[x |-> 0, z |-> 0, s |-> 0]} /\ bad' = CodeWrong /\ UNCHANGED <<c, k>>
AddGenerator == bad = "" /\ phase = "group" /\ k <= Len(C.gens) /\ k' = k + 1 /\ UNCHANGED <<c, bad, phase>>
                /\ group' = group \cup {Times(g, P(C.gens[k])) : g \in group}
Grown == bad = "" /\ phase = "group" /\ k > Len(C.gens) /\ phase' = "query" /\ k' = 1 /\ UNCHANGED <<c, group>>
         /\ bad' = IF C.gens2 # <<>> THEN PairWrong ELSE ""
Query == bad = "" /\ phase = "query" /\ k <= Len(C.queries) /\ k' = k + 1 /\ UNCHANGED <<c, group, phase>>
         /\ bad' = QueryWrong(C.queries[k])
Finished == bad = "" /\ (phase = "done" \/ (phase = "query" /\ k > Len(C.queries))) /\ UNCHANGED vars
Next == Judge \/ AddGenerator \/ Grown \/ Query \/ Finished

ValidCodeAccepted == bad # "ValidCodeAccepted"
InvalidCodeRefused == bad # "InvalidCodeRefused"
QubitsMinusRank == bad # "QubitsMinusRank"
DistanceKept == bad # "DistanceKept"
SyndromeIsAnticommutation == bad # "SyndromeIsAnticommutation"
EquivalentIffStabilizerApart == bad # "EquivalentIffStabilizerApart"
StringsShowTheGenerators == bad # "StringsShowTheGenerators"
CommuteIffEvenOverlap == bad # "CommuteIffEvenOverlap"
EqualIffSameGroup == bad # "EqualIffSameGroup"
EqualCodesHashAlike == bad # "EqualCodesHashAlike"
=============================================================================
