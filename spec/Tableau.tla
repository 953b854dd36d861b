------------------------------ MODULE Tableau ------------------------------
(* Stabilizer states of n qubits as an Aaronson-Gottesman tableau: 2n rows  *)
(* <<x, z, s>>, rows 1..n destabilizers, n+1..2n stabilizers; the row means *)
(* (-1)^s i^|x&z| X^x Z^z.                                                   *)
EXTENDS Gf2

Zero(n) == [i \in 1..(2 * n) |-> IF i <= n THEN <<Pow2[i - 1], 0, 0>> ELSE <<0, Pow2[i - n - 1], 0>>]

Mul(r1, r2) ==
  LET x == r1[1] ^^ r2[1]
      z == r1[2] ^^ r2[2]
      e == Pop(r1[1] & r1[2]) + Pop(r2[1] & r2[2]) + 2 * Pop(r1[2] & r2[1]) + 2 * (r1[3] + r2[3]) - Pop(x & z)
  IN <<x, z, ((e + 400) % 4) \div 2>>

RowH(r, a) == LET xa == Bit(r[1], a)
                  za == Bit(r[2], a)
              IN IF xa = za THEN <<r[1], r[2], Xor2(r[3], IF xa = 1 THEN 1 ELSE 0)>>
                 ELSE <<r[1] ^^ Pow2[a], r[2] ^^ Pow2[a], r[3]>>
RowS(r, a) == IF Bit(r[1], a) = 0 THEN r
              ELSE <<r[1], r[2] ^^ Pow2[a], Xor2(r[3], Bit(r[2], a))>>
RowSdg(r, a) == IF Bit(r[1], a) = 0 THEN r
                ELSE <<r[1], r[2] ^^ Pow2[a], Xor2(r[3], 1 - Bit(r[2], a))>>
RowX(r, a) == IF Bit(r[2], a) = 0 THEN r ELSE <<r[1], r[2], 1 - r[3]>>
RowZ(r, a) == IF Bit(r[1], a) = 0 THEN r ELSE <<r[1], r[2], 1 - r[3]>>
RowY(r, a) == IF Bit(r[1], a) = Bit(r[2], a) THEN r ELSE <<r[1], r[2], 1 - r[3]>>
RowCX(r, a, b) ==
  LET xa == Bit(r[1], a)  zb == Bit(r[2], b)
      flip == IF xa = 1 /\ zb = 1 /\ Bit(r[1], b) = Bit(r[2], a) THEN 1 ELSE 0
  IN <<IF xa = 1 THEN r[1] ^^ Pow2[b] ELSE r[1], IF zb = 1 THEN r[2] ^^ Pow2[a] ELSE r[2], Xor2(r[3], flip)>>
RowCZ(r, a, b) ==
  LET xa == Bit(r[1], a)  xb == Bit(r[1], b)
      flip == IF xa = 1 /\ xb = 1 /\ Bit(r[2], a) # Bit(r[2], b) THEN 1 ELSE 0
      z1 == IF xb = 1 THEN r[2] ^^ Pow2[a] ELSE r[2]
      z2 == IF xa = 1 THEN z1 ^^ Pow2[b] ELSE z1
  IN <<r[1], z2, Xor2(r[3], flip)>>
SwapBits(v, a, b) == IF Bit(v, a) = Bit(v, b) THEN v ELSE (v ^^ Pow2[a]) ^^ Pow2[b]
RowSwap(r, a, b) == <<SwapBits(r[1], a, b), SwapBits(r[2], a, b), r[3]>>

Gates1 == {"h", "s", "sdg", "x", "y", "z", "sx", "sxdg"}
Gates2 == {"cx", "cy", "cz", "swap"}
RowGate(r, g, q) ==
  CASE g = "h" -> RowH(r, q[1])
    [] g = "s" -> RowS(r, q[1])
    [] g = "sdg" -> RowSdg(r, q[1])
    [] g = "x" -> RowX(r, q[1])
    [] g = "y" -> RowY(r, q[1])
    [] g = "z" -> RowZ(r, q[1])
    [] g = "sx" -> RowH(RowS(RowH(r, q[1]), q[1]), q[1])
    [] g = "sxdg" -> RowH(RowSdg(RowH(r, q[1]), q[1]), q[1])
    [] g = "cx" -> RowCX(r, q[1], q[2])
    [] g = "cz" -> RowCZ(r, q[1], q[2])
    [] g = "cy" -> RowS(RowCX(RowSdg(r, q[2]), q[1], q[2]), q[2])
    [] g = "swap" -> RowSwap(r, q[1], q[2])
Gate(T, g, q) == [i \in 1..Len(T) |-> RowGate(T[i], g, q)]

N(T) == Len(T) \div 2
IsRandom(T, a) == \E i \in (N(T) + 1)..Len(T) : Bit(T[i][1], a) = 1
\* value of a Z measurement that is not random
DetValue(T, a) ==
  LET n == N(T)
      RECURSIVE F(_, _)
      F(i, acc) == IF i > n THEN acc
                   ELSE F(i + 1, IF Bit(T[i][1], a) = 1 THEN Mul(acc, T[n + i]) ELSE acc)
  IN F(1, <<0, 0, 0>>)[3]
\* the state after a random Z measurement gave o
Project(T, a, o) ==
  LET n == N(T)
      p == CHOOSE i \in (n + 1)..(2 * n) : Bit(T[i][1], a) = 1 /\ \A j \in (n + 1)..(i - 1) : Bit(T[j][1], a) = 0
      rp == T[p]
  IN [i \in 1..(2 * n) |-> IF i = p THEN <<0, Pow2[a], o>>
                           ELSE IF i = p - n THEN rp
                           ELSE IF Bit(T[i][1], a) = 1 THEN Mul(T[i], rp)
                           ELSE T[i]]
\* expectation of the Pauli <<x, z, s>>: 0 (random), 1 (it stabilizes) or -1
Anti(r1, r2) == Par((r1[1] & r2[2]) ^^ (r1[2] & r2[1]))
Expect(T, P) ==
  LET n == N(T) IN
  IF \E i \in (n + 1)..(2 * n) : Anti(T[i], P) = 1 THEN 0
  ELSE LET RECURSIVE F(_, _)
           F(i, acc) == IF i > n THEN acc
                        ELSE F(i + 1, IF Anti(T[i], P) = 1 THEN Mul(acc, T[n + i]) ELSE acc)
       IN IF F(1, <<0, 0, 0>>)[3] = P[3] THEN 1 ELSE -1
=============================================================================
