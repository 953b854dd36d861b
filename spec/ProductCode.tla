---------------------------- MODULE ProductCode ----------------------------
(* Product codes. A chain complex is the sequence of its boundary maps; one *)
(* behaviour multiplies a given complex by the seed matrices of the case,   *)
(* one per step (tensor product with the complex P1 -p-> P0), and judges    *)
(* the matrices the code returned or stored, their homology and their       *)
(* logical operators. A matrix is [r, c, rows], rows as sets of columns.    *)
EXTENDS Gf2Wide, FiniteSets, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, cx, pos, bad
vars == <<c, cx, pos, bad>>
C == Cases[c]
ToSet(s) == {s[i] : i \in 1..Len(s)}
Matrix(m) == [r |-> m.r, c |-> m.c, rows |-> [i \in 1..m.r |-> ToSet(m.rows[i])]]
Id(n) == [r |-> n, c |-> n, rows |-> [i \in 1..n |-> {i - 1}]]
ZeroM(r, k) == [r |-> r, c |-> k, rows |-> [i \in 1..r |-> {}]]
Tr(A) == [r |-> A.c, c |-> A.r, rows |-> [j \in 1..A.c |-> {i - 1 : i \in {i \in 1..A.r : (j - 1) \in A.rows[i]}}]]
Kron(A, B) ==
  [r |-> A.r * B.r, c |-> A.c * B.c,
   rows |-> [i \in 1..(A.r * B.r) |->
               {j[1] * B.c + j[2] : j \in A.rows[((i - 1) \div B.r) + 1] \X B.rows[((i - 1) % B.r) + 1]}]]
Beside(A, B) == [r |-> A.r, c |-> A.c + B.c, rows |-> [i \in 1..A.r |-> A.rows[i] \cup {A.c + j : j \in B.rows[i]}]]
Above(A, B) == [r |-> A.r + B.r, c |-> A.c, rows |-> [i \in 1..(A.r + B.r) |-> IF i <= A.r THEN A.rows[i] ELSE B.rows[i - A.r]]]

\* dimension of the k-th space of a complex (0..Len)
Dim(a, k) == IF k = 0 THEN a[1].r ELSE a[k].c
\* the k-th boundary map of the product of the complex a with p: D_k = C_k (x) P0 + C_(k-1) (x) P1
Boundary(a, p, k) ==
  LET L == Len(a)
      right == Above(Kron(Id(Dim(a, k - 1)), p), IF k = 1 THEN ZeroM(0, p.c * Dim(a, 0)) ELSE Kron(a[k - 1], Id(p.c)))
      left == Above(Kron(a[k], Id(p.r)), IF k = 1 THEN ZeroM(0, a[1].c * p.r) ELSE ZeroM(Dim(a, k - 2) * p.c, a[k].c * p.r))
  IN IF k > L THEN right ELSE Beside(left, right)
Product(a, p) == TLCEval([k \in 1..(Len(a) + 1) |-> TLCEval(Boundary(a, p, k))])

RECURSIVE Odd(_, _)
Odd(S, B) == \* sum over GF(2) of the rows of B with indices in S, as a set
  IF S = {} THEN {} ELSE LET i == CHOOSE i \in S : TRUE
                             r == Odd(S \ {i}, B)
                         IN (r \ B.rows[i + 1]) \cup (B.rows[i + 1] \ r)
ZeroProduct(A, B) == \A i \in 1..A.r : Odd(A.rows[i], B) = {}
IsComplex(a) == \A k \in 1..(Len(a) - 1) : ZeroProduct(a[k], a[k + 1])

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Wide(A) == TLCEval([i \in 1..A.r |-> WOf(A.c, SeqOf(A.rows[i]))])
MRank(A) == IF A.c = 0 THEN 0 ELSE WRank(Wide(A))

\* C.start: the complex the code was given; C.seeds: the seed matrices multiplied to it
Init == c \in 1..Len(Cases) /\ cx = [i \in 1..Len(Cases[c].start) |-> Matrix(Cases[c].start[i])] /\ pos = 0 /\ bad = ""
Multiply ==
  /\ bad = "" /\ pos < Len(C.seeds)
  /\ cx' = Product(cx, Matrix(C.seeds[pos + 1]))
  /\ pos' = pos + 1 /\ UNCHANGED <<c, bad>>

\* k of the code with its qubits in degree q: over all choices of q factors that stand in degree 1
Factors == [i \in 1..(1 + Len(C.seeds)) |-> Matrix(IF i = 1 THEN C.start[1] ELSE C.seeds[i - 1])]
Kunneth(q) ==
  LET fs == Factors
      rk == [i \in 1..Len(fs) |-> MRank(fs[i])]
      h1 == [i \in 1..Len(fs) |-> fs[i].c - rk[i]]
      h0 == [i \in 1..Len(fs) |-> fs[i].r - rk[i]]
      RECURSIVE Term(_, _)
      Term(S, i) == IF i > Len(fs) THEN 1 ELSE (IF i \in S THEN h1[i] ELSE h0[i]) * Term(S, i + 1)
      RECURSIVE Total(_)
      Total(Ss) == IF Ss = {} THEN 0 ELSE LET S == CHOOSE S \in Ss : TRUE IN Term(S, 1) + Total(Ss \ {S})
  IN Total({S \in SUBSET (1..Len(fs)) : Cardinality(S) = q})

Out == [i \in 1..Len(C.out) |-> Matrix(C.out[i])]
Same(A, B) == A.r = B.r /\ A.c = B.c /\ A.rows = B.rows
SameAll(as, bs) == Len(as) = Len(bs) /\ \A i \in 1..Len(as) : Same(as[i], bs[i])

\* C.kind = "maps": what the product function returned; C.checked: it tests its result
JudgeMaps ==
  /\ C.kind = "maps" /\ bad = "" /\ pos = Len(C.seeds)
  /\ bad' = (IF C.checked /\ ~IsComplex(cx)
             THEN IF C.status = "RuntimeError" THEN "" ELSE "RefusesWhatIsNoComplex"
             ELSE IF C.status # "ok" THEN "MapsAreReturned"
             ELSE IF ~SameAll(Out, cx) THEN "MapsAreTheProduct"
             ELSE IF C.checked /\ ~IsComplex(Out) THEN "BoundariesOfBoundariesVanish"
             ELSE "")
  /\ pos' = pos + 1 /\ UNCHANGED <<c, cx>>

\* C.kind = "code": the stored matrices of a code with its qubits in degree C.q of the product:
\*   C.out = boundary maps (mx, hx, hz^T, mz^T or hx, hz^T, mz^T), C.lx, C.lz when asked (C.logicals), C.params: [n, k] (-1 when none)
HX == Out[C.q]
HZ == Tr(Out[C.q + 1])
LogicalsOk(l, own, other, k) ==
  LET Bo == WBasis(Wide(own))
      Wl == Wide(l)
      Wx == Wide(other)
      B == WBasis(Wide(own) \o Wl)
  IN l.r = k /\ (k > 0 => (l.c = own.c /\ (\A i \in 1..l.r : WCommute(Wx, Wl[i])) /\ Len(B) = Len(Bo) + k))
JudgeCode ==
  /\ C.kind = "code" /\ bad = "" /\ pos = Len(C.seeds)
  /\ LET k == Kunneth(C.q)
         r == TLCEval(MRank(HX) + MRank(HZ))
     IN bad' = (IF C.status # "ok" THEN "CodeIsStored"
                ELSE IF ~SameAll(Out, cx) THEN "StoredMapsAreTheProduct"
                ELSE IF ~C.formats THEN "BothFormatsAgree"
                ELSE IF ~IsComplex(Out) THEN "BoundariesOfBoundariesVanish"
                ELSE IF HX.c - r # k THEN "HomologyByKuenneth"
                ELSE IF C.logicals /\ ~(LogicalsOk(Matrix(C.lx), HX, HZ, k) /\ LogicalsOk(Matrix(C.lz), HZ, HX, k)) THEN "LogicalsAreABasis"
                ELSE IF C.params.n # -1 /\ (C.params.n # HX.c \/ C.params.k # k) THEN "ParametersAreStored"
                ELSE IF C.stored # C.distances THEN "ParametersAreStored"
                ELSE "")
  /\ pos' = pos + 1 /\ UNCHANGED <<c, cx>>
Finished == (bad # "" \/ pos > Len(C.seeds)) /\ UNCHANGED vars
Next == Multiply \/ JudgeMaps \/ JudgeCode \/ Finished

RefusesWhatIsNoComplex == bad # "RefusesWhatIsNoComplex"
MapsAreReturned == bad # "MapsAreReturned"
MapsAreTheProduct == bad # "MapsAreTheProduct"
BoundariesOfBoundariesVanish == bad # "BoundariesOfBoundariesVanish"
CodeIsStored == bad # "CodeIsStored"
StoredMapsAreTheProduct == bad # "StoredMapsAreTheProduct"
BothFormatsAgree == bad # "BothFormatsAgree"
HomologyByKuenneth == bad # "HomologyByKuenneth"
LogicalsAreABasis == bad # "LogicalsAreABasis"
ParametersAreStored == bad # "ParametersAreStored"
=============================================================================
