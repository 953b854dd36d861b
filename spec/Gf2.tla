-------------------------------- MODULE Gf2 --------------------------------
(* Linear algebra over GF(2) on bit masks (vectors of up to 31 bits are     *)
(* integers, position i of the vector is bit i) and on 0/1 sequences.       *)
EXTENDS Integers, Sequences, FiniteSets, Bitwise, TLC

Pow2 == [i \in 0..30 |-> 2^i]
Bit(v, i) == IF (v & Pow2[i]) = 0 THEN 0 ELSE 1

Pop8 == [v \in 0..1023 |-> Bit(v, 0) + Bit(v, 1) + Bit(v, 2) + Bit(v, 3) + Bit(v, 4)
                           + Bit(v, 5) + Bit(v, 6) + Bit(v, 7) + Bit(v, 8) + Bit(v, 9)]
Pop(v) == Pop8[v % 1024] + Pop8[(v \div 1024) % 1024] + Pop8[v \div 1048576]
Par(v) == Pop(v) % 2

\* the xor of a sequence of masks
RECURSIVE XorFrom(_, _, _)
XorFrom(s, i, acc) == IF i > Len(s) THEN acc ELSE XorFrom(s, i + 1, acc ^^ s[i])
XorAll(s) == XorFrom(s, 1, 0)

\* the combination of the rows (masks) selected by the mask sel (row i is bit i-1)
RECURSIVE CombFrom(_, _, _, _)
CombFrom(rows, sel, i, acc) ==
  IF i > Len(rows) THEN acc
  ELSE CombFrom(rows, sel, i + 1, IF Bit(sel, i - 1) = 1 THEN acc ^^ rows[i] ELSE acc)
Comb(rows, sel) == CombFrom(rows, sel, 1, 0)

\* highest set bit of v > 0
RECURSIVE TopFrom(_, _)
TopFrom(v, i) == IF v \div Pow2[i] > 0 THEN i ELSE TopFrom(v, i - 1)
Top(v) == TopFrom(v, 30)

\* An echelon basis is a function pivot -> row whose highest bit is the pivot (0 where there is none).
NoBasis == [p \in 0..30 |-> 0]
RECURSIVE ReduceAt(_, _, _)
ReduceAt(B, v, p) ==
  IF v = 0 \/ p < 0 THEN v
  ELSE ReduceAt(B, IF Bit(v, p) = 1 /\ B[p] # 0 THEN v ^^ B[p] ELSE v, p - 1)
Reduce(B, v) == ReduceAt(B, v, 30)
Insert(B, v) == LET r == Reduce(B, v) IN IF r = 0 THEN B ELSE [B EXCEPT ![Top(r)] = r]
RECURSIVE BasisFrom(_, _, _)
BasisFrom(rows, i, B) == IF i > Len(rows) THEN B ELSE BasisFrom(rows, i + 1, Insert(B, rows[i]))
Basis(rows) == BasisFrom(rows, 1, NoBasis)
InBasis(B, v) == Reduce(B, v) = 0
RankB(B) == Cardinality({p \in 0..30 : B[p] # 0})
Rank(rows) == RankB(Basis(rows))
InSpan(rows, v) == InBasis(Basis(rows), v)

\* syndrome of v: sequence of parities
Syn(rows, v) == [i \in 1..Len(rows) |-> Par(rows[i] & v)]
SynMaskOf(rows, v) == LET RECURSIVE F(_, _)
                          F(i, acc) == IF i > Len(rows) THEN acc
                                       ELSE F(i + 1, IF Par(rows[i] & v) = 1 THEN acc + Pow2[i - 1] ELSE acc)
                      IN F(1, 0)
Commute(rows, v) == \A i \in 1..Len(rows) : Par(rows[i] & v) = 0

Range(s) == {s[i] : i \in 1..Len(s)}
Xor2(a, b) == IF a = b THEN 0 ELSE 1

\* all elements of the span of rows (few rows only)
RECURSIVE SpanSet(_, _)
SpanSet(rows, i) == IF i > Len(rows) THEN {0}
                    ELSE LET S == SpanSet(rows, i + 1) IN S \cup {s ^^ rows[i] : s \in S}
Span(rows) == SpanSet(rows, 1)
\* least weight in the coset of v
MinWeight(v, S) == LET W == {Pop(v ^^ s) : s \in S} IN CHOOSE w \in W : \A u \in W : w <= u
=============================================================================
