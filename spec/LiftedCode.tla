----------------------------- MODULE LiftedCode -----------------------------
(* Lifted products of two protographs, as CSS codes and with every second   *)
(* block of qubits rotated (bias-tailored), and the code files that come    *)
(* with the library. A protograph is a matrix over the ring of circulants,  *)
(* an entry the set of its exponents; lifting replaces x^e by the shift of  *)
(* L columns by e. One behaviour forms the protographs of the checks, lifts *)
(* them, judges what the code holds, and, for toric codes, walks from one   *)
(* vertex until the lattice is covered, in search of the shortest loop that *)
(* is no boundary.                                                          *)
EXTENDS Gf2Wide, FiniteSets, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, phase, m, front, seen, steps, bad
vars == <<c, phase, m, front, seen, steps, bad>>
C == Cases[c]
ToSet(s) == {s[i] : i \in 1..Len(s)}
L == C.lift

\* the ring: exponents modulo L, those that occur an even number of times cancel
Ring(s) == {e \in 0..(L - 1) : Cardinality({i \in 1..Len(s) : s[i] % L = e}) % 2 = 1}
Conj(E) == {(L - e) % L : e \in E}
Proto(p) == [r |-> p.r, c |-> p.c, e |-> TLCEval([i \in 1..p.r |-> [j \in 1..p.c |-> Ring(p.rows[i][j])]])]
Star(p) == [r |-> p.c, c |-> p.r, e |-> [i \in 1..p.c |-> [j \in 1..p.r |-> Conj(p.e[j][i])]]]
One(n) == [r |-> n, c |-> n, e |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN {0} ELSE {}]]]
None(r, k) == [r |-> r, c |-> k, e |-> [i \in 1..r |-> [j \in 1..k |-> {}]]]
\* a Kronecker product in which one of two entries always is 0 or 1
Times(E, F) == IF F = {0} THEN E ELSE IF E = {0} THEN F ELSE {}
Kron(p, q) == [r |-> p.r * q.r, c |-> p.c * q.c,
               e |-> TLCEval([i \in 1..(p.r * q.r) |-> [j \in 1..(p.c * q.c) |->
                        Times(p.e[((i - 1) \div q.r) + 1][((j - 1) \div q.c) + 1], q.e[((i - 1) % q.r) + 1][((j - 1) % q.c) + 1])]])]
Beside(p, q) == [r |-> p.r, c |-> p.c + q.c, e |-> [i \in 1..p.r |-> p.e[i] \o q.e[i]]]
Above(p, q) == [r |-> p.r + q.r, c |-> p.c, e |-> p.e \o q.e]
\* the binary matrix: rows as sets of columns
Lift(p) == TLCEval([r |-> p.r * L, c |-> p.c * L,
                    rows |-> [i \in 1..(p.r * L) |->
                       UNION {{((j - 1) * L) + (((i - 1) + x) % L) : x \in p.e[((i - 1) \div L) + 1][j]} : j \in 1..p.c}]])
Given(x) == [r |-> x.r, c |-> x.c, rows |-> TLCEval([i \in 1..x.r |-> ToSet(x.rows[i])])]

A == Proto(C.a)
B == IF C.second THEN Proto(C.b) ELSE A
X1 == Kron(A, One(B.c))
X2 == Kron(One(A.r), Star(B))
Z1 == Kron(One(A.c), B)
Z2 == Kron(Star(A), One(B.r))
CssChecks == [x |-> Beside(X1, X2), z |-> Beside(Z1, Z2)]
\* the second block of qubits rotated: its X and Z parts change places
BiasChecks == [x |-> Above(Beside(None(Z1.r, Z1.c), Z2), Beside(X1, None(X2.r, X2.c))),
               z |-> Above(Beside(Z1, None(Z2.r, Z2.c)), Beside(None(X1.r, X1.c), X2))]
Stacked == LET K == CssChecks IN Beside(Above(None(K.z.r, K.z.c), K.x), Above(K.z, None(K.x.r, K.x.c)))

Init == /\ c \in 1..Len(Cases) /\ bad = "" /\ front = {} /\ seen = {} /\ steps = 0 /\ m = <<>>
        /\ phase = IF Cases[c].kind = "file" THEN "stored" ELSE "build"

Build ==
  /\ phase = "build" /\ bad = ""
  /\ LET K == IF C.kind = "css" THEN CssChecks ELSE BiasChecks
         whole == IF C.kind = "css" THEN Stacked ELSE Beside(K.x, K.z)
         x == Lift(K.x)
         z == Lift(K.z)
     IN /\ m' = [x |-> x, z |-> z]
        /\ bad' = (IF C.status # "ok" THEN "CodeIsConstructed"
                   ELSE IF Given(C.hx) # x \/ Given(C.hz) # z THEN "ChecksAreTheLiftedProduct"
                   ELSE IF Given(C.whole) # Lift(whole) THEN "ProtographLiftsToTheChecks"
                   ELSE IF C.kind = "css" /\ (Given(C.hx1) # Lift(X1) \/ Given(C.hx2) # Lift(X2) \/ Given(C.hz1) # Lift(Z1) \/ Given(C.hz2) # Lift(Z2)) THEN "BlocksOfTheProduct"
                   ELSE "")
  /\ phase' = "algebra" /\ UNCHANGED <<c, front, seen, steps>>

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Wide(n, M) == TLCEval([i \in 1..M.r |-> WOf(n, SeqOf(M.rows[i]))])
\* rows of two matrices side by side
Pair(n, M, K) == TLCEval([i \in 1..M.r |-> WOf(2 * n, SeqOf(M.rows[i] \cup {n + q : q \in K.rows[i]}))])

Algebra ==
  /\ phase = "algebra" /\ bad = ""
  /\ LET n == m.x.c IN
     IF C.kind = "css"
     THEN LET wx == Wide(n, m.x)
              wz == Wide(n, m.z)
              bx == TLCEval(WBasis(wx))
              bz == TLCEval(WBasis(wz))
              k == n - Len(bx) - Len(bz)
              lx == Wide(n, Given(C.lx))
              lz == Wide(n, Given(C.lz))
          IN bad' = (IF \E i \in 1..Len(wx) : ~WCommute(wz, wx[i]) THEN "ChecksCommute"
                     ELSE IF <<C.n, C.k>> # <<n, k>> THEN "ParametersOfTheCode"
                     ELSE IF \/ Len(lx) # k \/ Len(lz) # k \/ (\E i \in 1..k : ~WCommute(wz, lx[i]) \/ ~WCommute(wx, lz[i]))
                             \/ WRank(wx \o lx) # Len(bx) + k \/ WRank(wz \o lz) # Len(bz) + k THEN "LogicalsAreABasis"
                     ELSE "")
     ELSE LET h == Pair(n, m.x, m.z)
              t == Pair(n, m.z, m.x)                  \* what a check commutes with
              r == WRank(h)
              k == n - r
              l == Pair(n, Given(C.lx), Given(C.lz))
          IN bad' = (IF \E i \in 1..Len(h) : ~WCommute(t, h[i]) THEN "ChecksCommute"
                     ELSE IF <<C.n, C.k>> # <<n, k>> THEN "ParametersOfTheCode"
                     ELSE IF Len(l) # 2 * k \/ (\E i \in 1..Len(l) : ~WCommute(t, l[i])) \/ WRank(h \o l) # r + 2 * k THEN "LogicalsAreABasis"
                     ELSE "")
  /\ phase' = "done" /\ UNCHANGED <<c, m, front, seen, steps>>

\* files: C.hx, C.hz (r = 0: not stored), C.n, C.k: as the name states; C.rows: largest column and row weight named
\* the toric code as the product of two rings of d bits
Site(d, i, j) == (d * (i % d)) + (j % d)
ToricX(d) == [r |-> d * d, c |-> 2 * d * d,
              rows |-> [s \in 1..(d * d) |-> LET i == (s - 1) \div d
                                                 j == (s - 1) % d
                                             IN {Site(d, i, j), Site(d, i + 1, j), d * d + Site(d, i, j), d * d + Site(d, i, j + d - 1)}]]
ToricZ(d) == [r |-> d * d, c |-> 2 * d * d,
              rows |-> [s \in 1..(d * d) |-> LET i == (s - 1) \div d
                                                 j == (s - 1) % d
                                             IN {Site(d, i, j), Site(d, i, j + 1), d * d + Site(d, i, j), d * d + Site(d, i + d - 1, j)}]]
Stored ==
  /\ phase = "stored" /\ bad = ""
  /\ LET x == Given(C.hx)
         z == Given(C.hz)
         d == C.toric
         wx == Wide(C.n, IF d > 0 THEN ToricX(d) ELSE x)
         wz == Wide(C.n, IF d > 0 THEN ToricZ(d) ELSE z)
     IN /\ m' = [x |-> x, z |-> z]
        /\ bad' = (IF C.status # "ok" THEN "FileIsReadable"
                   ELSE IF \E y \in {x, z} : y.r > 0 /\ (y.c # C.n \/ \E i \in 1..y.r : \E q \in y.rows[i] : q < 0 \/ q >= C.n) THEN "NumberOfQubits"
                   ELSE IF d > 0 /\ (C.n # 2 * d * d \/ C.k # 2 \/ (x.r > 0 /\ x # ToricX(d)) \/ (z.r > 0 /\ z # ToricZ(d))) THEN "ToricCodeOfTheSize"
                   ELSE IF \E i \in 1..Len(wx) : ~WCommute(wz, wx[i]) THEN "ChecksCommute"
                   ELSE IF C.n - WRank(wx) - WRank(wz) # C.k THEN "NumberOfLogicalQubits"
                   ELSE IF \E y \in {x, z} : y.r > 0 /\ C.rows # <<0, 0>> /\ ((\E i \in 1..y.r : Cardinality(y.rows[i]) > C.rows[2])
                                \/ \E q \in 0..(C.n - 1) : Cardinality({i \in 1..y.r : q \in y.rows[i]}) > C.rows[1]) THEN "WeightsAsNamed"
                   ELSE "")
        /\ IF d > 0 THEN phase' = "walk" /\ front' = {<<0, 0>>} /\ seen' = {<<0, 0>>}
           ELSE phase' = "done" /\ UNCHANGED <<front, seen>>
  /\ UNCHANGED <<c, steps>>

\* Walk over the Z checks from check 0: qubits are the edges, a step crosses one. An X-type operator with
\* no syndrome is a loop; it is no boundary when it crosses one of two cuts an odd number of times (a cut
\* commutes with all X checks). State of the walk: check and parity of the crossings, packed in one number.
Cut(d, w) == IF w = 1 THEN {Site(d, i, 0) : i \in 0..(d - 1)} ELSE {d * d + Site(d, 0, j) : j \in 0..(d - 1)}
CutsOk(d) == \A w \in {1, 2} : \A s \in 1..(d * d) : Cardinality(Cut(d, w) \cap ToricX(d).rows[s]) % 2 = 0
Neighbours(d, v) ==
  LET i == v[1] \div d
      j == v[1] % d
      Through(q, s) == <<s, ((v[2] + (IF q \in Cut(d, 1) THEN 1 ELSE 0)) % 2) + 2 * (((v[2] \div 2) + (IF q \in Cut(d, 2) THEN 1 ELSE 0)) % 2)>>
  IN {Through(Site(d, i, j), Site(d, i, j + d - 1)), Through(Site(d, i, j + 1), Site(d, i, j + 1)),
      Through(d * d + Site(d, i, j), Site(d, i + 1, j)), Through(d * d + Site(d, i + d - 1, j), Site(d, i + d - 1, j))}
Walk ==
  /\ phase = "walk" /\ bad = ""
  /\ LET d == C.toric
         new == TLCEval(UNION {Neighbours(d, v) : v \in front} \ seen)
         loop == \E p \in 1..3 : <<0, p>> \in new
     IN /\ front' = new /\ seen' = seen \cup new /\ steps' = steps + 1
        /\ bad' = (IF steps = 0 /\ ~CutsOk(d) THEN "CutsCommute"
                   ELSE IF loop /\ steps + 1 # C.toric THEN "DistanceAsNamed"
                   ELSE IF new = {} THEN "DistanceAsNamed" ELSE "")
        /\ phase' = IF loop THEN "done" ELSE "walk"
  /\ UNCHANGED <<c, m>>
Done == (phase = "done" \/ bad # "") /\ UNCHANGED vars
Next == Build \/ Algebra \/ Stored \/ Walk \/ Done

CodeIsConstructed == bad # "CodeIsConstructed"
ChecksAreTheLiftedProduct == bad # "ChecksAreTheLiftedProduct"
ProtographLiftsToTheChecks == bad # "ProtographLiftsToTheChecks"
BlocksOfTheProduct == bad # "BlocksOfTheProduct"
ChecksCommute == bad # "ChecksCommute"
ParametersOfTheCode == bad # "ParametersOfTheCode"
LogicalsAreABasis == bad # "LogicalsAreABasis"
FileIsReadable == bad # "FileIsReadable"
NumberOfQubits == bad # "NumberOfQubits"
ToricCodeOfTheSize == bad # "ToricCodeOfTheSize"
NumberOfLogicalQubits == bad # "NumberOfLogicalQubits"
WeightsAsNamed == bad # "WeightsAsNamed"
CutsCommute == bad # "CutsCommute"
DistanceAsNamed == bad # "DistanceAsNamed"
=============================================================================
