------------------------------ MODULE Gf2Wide ------------------------------
(* Linear algebra over GF(2) for vectors of any length: a vector is the     *)
(* sequence of its words of 24 bits, a basis a sequence of <<word, bit,     *)
(* vector>> in the order of insertion, every vector reduced by those before *)
EXTENDS Gf2
LOCAL W == 24

Words(n) == (n + W - 1) \div W
WZero(n) == [w \in 1..Words(n) |-> 0]
WXor(a, b) == TLCEval([w \in 1..Len(a) |-> a[w] ^^ b[w]])
WAt(a, i) == Bit(a[(i \div W) + 1], i % W)
RECURSIVE WPopFrom(_, _, _)
WPopFrom(a, w, acc) == IF w > Len(a) THEN acc ELSE WPopFrom(a, w + 1, acc + Pop(a[w]))
WPop(a) == WPopFrom(a, 1, 0)
RECURSIVE WDotFrom(_, _, _, _)
WDotFrom(a, b, w, acc) == IF w > Len(a) THEN acc % 2 ELSE WDotFrom(a, b, w + 1, acc + Pop(a[w] & b[w]))
WDot(a, b) == WDotFrom(a, b, 1, 0)
WOverlap(a, b) == LET RECURSIVE F(_, _)
                      F(w, acc) == IF w > Len(a) THEN acc ELSE F(w + 1, acc + Pop(a[w] & b[w]))
                  IN F(1, 0)
WUnit(n, i) == [w \in 1..Words(n) |-> IF w = (i \div W) + 1 THEN Pow2[i % W] ELSE 0]
\* the vector with ones at the positions in the sequence s
RECURSIVE WSetFrom(_, _, _)
WSetFrom(s, i, acc) == IF i > Len(s) THEN acc
                       ELSE WSetFrom(s, i + 1, [acc EXCEPT ![(s[i] \div W) + 1] = @ ^^ Pow2[s[i] % W]])
WOf(n, s) == WSetFrom(s, 1, WZero(n))

RECURSIVE WReduceFrom(_, _, _)
WReduceFrom(B, v, i) == IF i > Len(B) THEN v
                        ELSE WReduceFrom(B, IF (v[B[i][1]] & B[i][2]) # 0 THEN WXor(v, B[i][3]) ELSE v, i + 1)
WReduce(B, v) == WReduceFrom(B, v, 1)
WIsZero(v) == \A w \in 1..Len(v) : v[w] = 0
WInsert(B, v) == LET r == WReduce(B, v) IN
                 IF WIsZero(r) THEN B
                 ELSE LET w == CHOOSE w \in 1..Len(r) : r[w] # 0 IN Append(B, <<w, Pow2[Top(r[w])], r>>)
RECURSIVE WBasisFrom(_, _, _)
WBasisFrom(rows, i, B) == IF i > Len(rows) THEN B ELSE WBasisFrom(rows, i + 1, WInsert(B, rows[i]))
WBasis(rows) == WBasisFrom(rows, 1, <<>>)
WIn(B, v) == WIsZero(WReduce(B, v))
WRank(rows) == Len(WBasis(rows))
WCommute(rows, v) == \A i \in 1..Len(rows) : WDot(rows[i], v) = 0
=============================================================================
