----------------------------- MODULE UfAlgebra -----------------------------
(* What the linear algebra and the union-find tree below the decoders, the  *)
(* Code object and the simulation of decoders compute.                      *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k, cls, bad
vars == <<c, k, cls, bad>>
C == Cases[c]

\* 0/1 sequence -> mask
Mask(s) == LET RECURSIVE F(_, _)
               F(i, acc) == IF i > Len(s) THEN acc ELSE F(i + 1, acc + s[i] * Pow2[i - 1])
           IN F(1, 0)
Rows(m) == [i \in 1..Len(m) |-> Mask(m[i])]
Cols(m) == [j \in 1..Len(m[1]) |-> Mask([i \in 1..Len(m) |-> m[i][j]])]
Half(v, lo, hi) == SubSeq(v, lo, hi)
Product(m, v) == [i \in 1..Len(m) |-> Par(Mask(m[i]) & Mask(v))]

PluWrong ==
  LET m == C.m  cols == Cols(C.m) IN
  IF C.status # "ok" THEN "Computes"
  ELSE IF C.rank # Rank(Rows(m)) THEN "Rank"
  \* a system that has a solution is solved
  ELSE IF InSpan(cols, Mask(C.y)) /\ (Len(C.x) # Len(cols) \/ Product(m, C.x) # C.y) THEN "Solution"
  ELSE IF C.inrow # InSpan(Rows(m), Mask(C.v)) THEN "RowSpaceMembership"
  ELSE IF C.trans # [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]] THEN "Transpose"
  ELSE IF C.prod # Product(m, C.v) THEN "SyndromeIsTheProduct"
  ELSE IF C.resid # [i \in 1..Len(m) |-> Xor2(C.prod[i], C.y[i])] THEN "ResidualIsTheSum"
  ELSE IF C.swapped # [i \in 1..Len(m) |-> IF i = 1 THEN m[Len(m)] ELSE IF i = Len(m) THEN m[1] ELSE m[i]] THEN "RowSwap"
  ELSE ""

\* a Code object: hx = <<>> stands for a code given by one matrix
CodeWrong ==
  LET n == Len(C.hz[1])
      two == C.hx # <<>>
      want(op) ==
        CASE op.f = "n" -> n
          [] op.f = "hz" -> C.hz
          [] op.f = "hx" -> C.hx
          [] op.f = "x_syndrome" -> IF Len(op.a) = n THEN Product(C.hz, op.a)
                                    ELSE Product(C.hz, Half(op.a, 1, n)) \o Product(C.hx, Half(op.a, n + 1, 2 * n))
          [] op.f = "syndrome" -> Product(C.hz, op.a) \o Product(C.hx, op.b)
          [] op.f = "is_x_stabilizer" -> InSpan(Rows(C.hx), Mask(op.a))
          [] op.f = "is_stabilizer" -> InSpan(Rows(C.hx), Mask(op.a)) /\ InSpan(Rows(C.hz), Mask(op.b))
          [] op.f = "is_stabilizer1" -> IF Len(op.a) = n THEN InSpan(Rows(C.hx), Mask(op.a))
                                        ELSE InSpan(Rows(C.hx), Mask(Half(op.a, 1, n))) /\ InSpan(Rows(C.hz), Mask(Half(op.a, n + 1, 2 * n)))
      \* vectors of a wrong length are refused, and so is what needs the second matrix of a code that has only one
      refused(op) ==
        \/ op.f \in {"x_syndrome", "is_stabilizer1"} /\ Len(op.a) \notin {n, 2 * n}
        \/ op.f \in {"syndrome", "is_stabilizer", "is_x_stabilizer"} /\ Len(op.a) # n
        \/ op.f \in {"syndrome", "is_stabilizer"} /\ Len(op.b) # n
        \/ ~two /\ op.f = "is_x_stabilizer"
      wrong == {i \in 1..Len(C.ops) : LET o == C.ops[i] IN
                  IF refused(o) THEN o.status = "ok" ELSE o.status # "ok" \/ o.val # want(o)}
  IN
  IF wrong = {} THEN "" ELSE
  LET o == C.ops[CHOOSE i \in wrong : \A j \in wrong : i <= j] IN
  CASE o.f \in {"n", "hz", "hx"} -> "CodeKeepsItsMatrices"
    [] o.f \in {"x_syndrome", "syndrome"} -> "SyndromeIsTheProduct"
    [] OTHER -> "StabilizerIffInTheRowSpaces"

\* simulate_wer: every run is judged by its residual error, every rate by its runs
RunWrong(r, run) ==
  LET s == Product(C.hz, run.error) IN
  IF run.syndrome # s THEN "RunHasTheSyndromeOfItsError"
  ELSE IF run.error \notin [1..Len(C.hz[1]) -> {0, 1}] THEN "RunHasTheSyndromeOfItsError"
  ELSE IF (r.rate0 /\ Mask(run.error) # 0) \/ (r.rate1 /\ Mask(run.error) # Pow2[Len(C.hz[1])] - 1) THEN "ErrorsFollowTheRate"
  ELSE IF (run.status = "success") # InSpan(Rows(C.hx), Mask(run.error) ^^ Mask(run.estimate)) THEN "SuccessIffResidualIsAStabilizer"
  ELSE IF \A f \in Range(C.fresh) : f.syn # s \/ f.est # run.estimate THEN "RunsUseTheDecoder"
  ELSE ""
WerWrong ==
  IF C.status # "ok" THEN "Computes"
  ELSE IF Len(C.rates) # C.nrates \/ \E i \in 1..Len(C.rates) : Len(C.rates[i].runs) # C.nruns THEN "AsManyRunsAsAskedFor"
  ELSE LET w == {RunWrong(C.rates[i], C.rates[i].runs[j]) : i \in 1..Len(C.rates), j \in 1..C.nruns} \ {""} IN
  IF w # {} THEN CHOOSE x \in w : TRUE
  \* C.rates[i].failures is the reported word error rate times k times the number of runs
  ELSE IF \E i \in 1..Len(C.rates) : C.rates[i].failures # Cardinality({j \in 1..C.nruns : C.rates[i].runs[j].status # "success"})
    THEN "WordErrorRateCountsTheFailures"
  ELSE ""

TreeWrong(st, p) ==
  LET n == Len(C.check)
      Class(i) == {j \in 1..n : p[j] = p[i]}
      Root(i) == st.root[i] + 1
      RECURSIVE Below(_, _)
      Below(S, d) == IF d = 0 THEN S ELSE Below(S \cup UNION {{x + 1 : x \in Range(st.kids[i])} : i \in S}, d - 1)
  IN IF \E i, j \in 1..n : (Root(i) = Root(j)) # (p[i] = p[j]) THEN "SameRootIffUnited"
     ELSE IF \E i \in 1..n : p[Root(i)] # p[i] THEN "SameRootIffUnited"
     ELSE IF \E i \in 1..n : st.size[Root(i)] # Cardinality(Class(i)) THEN "RootKnowsTheSize"
     ELSE IF \E i \in 1..n : Len(st.checks[Root(i)]) # Cardinality(Range(st.checks[Root(i)]))
                              \/ {x + 1 : x \in Range(st.checks[Root(i)])} # {j \in Class(i) : C.check[j] = 1} THEN "RootKnowsTheChecks"
     ELSE IF \E i \in 1..n : Below({Root(i)}, n) # Class(i) THEN "ChildrenSpanTheCluster"
     ELSE ""

Init == c \in 1..Len(Cases) /\ k = 0 /\ bad = "" /\ cls = IF Cases[c].kind = "tree" THEN [i \in 1..Len(Cases[c].check) |-> i] ELSE <<>>
Once == bad = "" /\ k = 0 /\ k' = 1 /\ UNCHANGED <<c, cls>>
        /\ bad' = CASE C.kind = "plu" -> PluWrong [] C.kind = "code" -> CodeWrong [] C.kind = "wer" -> WerWrong [] OTHER -> ""
Unite == bad = "" /\ C.kind = "tree" /\ k >= 1 /\ k <= Len(C.trace) /\ k' = k + 1 /\ UNCHANGED c
         /\ LET st == C.trace[k] IN
            /\ cls' = [i \in DOMAIN cls |-> IF cls[i] = cls[st.a + 1] THEN cls[st.b + 1] ELSE cls[i]]
            /\ bad' = TreeWrong(st, cls')
Finished == bad = "" /\ k >= 1 /\ (IF C.kind = "tree" THEN k > Len(C.trace) ELSE TRUE) /\ UNCHANGED vars
Next == Once \/ Unite \/ Finished

Computes == bad # "Computes"
Rank_ == bad # "Rank"
Solution == bad # "Solution"
RowSpaceMembership == bad # "RowSpaceMembership"
Transpose == bad # "Transpose"
SyndromeIsTheProduct == bad # "SyndromeIsTheProduct"
ResidualIsTheSum == bad # "ResidualIsTheSum"
RowSwap == bad # "RowSwap"
CodeKeepsItsMatrices == bad # "CodeKeepsItsMatrices"
StabilizerIffInTheRowSpaces == bad # "StabilizerIffInTheRowSpaces"
AsManyRunsAsAskedFor == bad # "AsManyRunsAsAskedFor"
RunHasTheSyndromeOfItsError == bad # "RunHasTheSyndromeOfItsError"
ErrorsFollowTheRate == bad # "ErrorsFollowTheRate"
SuccessIffResidualIsAStabilizer == bad # "SuccessIffResidualIsAStabilizer"
RunsUseTheDecoder == bad # "RunsUseTheDecoder"
WordErrorRateCountsTheFailures == bad # "WordErrorRateCountsTheFailures"
SameRootIffUnited == bad # "SameRootIffUnited"
RootKnowsTheSize == bad # "RootKnowsTheSize"
RootKnowsTheChecks == bad # "RootKnowsTheChecks"
ChildrenSpanTheCluster == bad # "ChildrenSpanTheCluster"
=============================================================================
