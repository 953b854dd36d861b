------------------------------ MODULE SingleShot ------------------------------
(* The protocol of a single-shot simulation. A sample is a number of noisy  *)
(* rounds and a perfect one; every round adds new errors to the residual of *)
(* the last one, reads noisy syndromes, repairs them with the meta checks   *)
(* if asked to, decodes both sides and keeps the residual. The recorded     *)
(* calls of the decoders (what they are, their channel, their input, their  *)
(* answer) are replayed in this machine; errors and flips that are left to  *)
(* chance are read off the inputs and have to be possible ones. The machine *)
(* ends with the number of successes the simulation has to report.          *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, sample, round, at, res, won, hist, stat, bad
vars == <<c, sample, round, at, res, won, hist, stat, bad>>
C == Cases[c]
N == C.n
AllOn(n) == Pow2[n] - 1
\* product of a matrix, as the masks of its rows, and a vector
Times(H, v) == LET RECURSIVE F(_, _)
                   F(i, acc) == IF i > Len(H) THEN acc ELSE F(i + 1, acc + Par(H[i] & v) * Pow2[i - 1])
               IN F(1, 0)
WithIdentity(H) == [i \in 1..Len(H) |-> H[i] + Pow2[N] * Pow2[i - 1]]
SingleStage(H, M) == WithIdentity(H) \o [j \in 1..Len(M) |-> M[j] * Pow2[N]]

Side(d) == IF d = "x" THEN [h |-> C.hz, m |-> C.mz, meta |-> C.zmeta, ch |-> C.chx, sch |-> C.schx, flips |-> Range(C.flipx), ev |-> C.evx]
           ELSE [h |-> C.hx, m |-> C.mx, meta |-> C.xmeta, ch |-> C.chz, sch |-> C.schz, flips |-> Range(C.flipz), ev |-> C.evz]
Same(s, v) == \A i \in 1..Len(s) : s[i] = v
Channel(s, e, analog) ==
  /\ Len(e.ch) = e.cols
  /\ Same(SubSeq(e.ch, 1, N), s.ch)
  /\ (~analog => Same(SubSeq(e.ch, N + 1, e.cols), s.sch))
  /\ (analog => /\ Len(e.virt) = Len(s.h)
                /\ \A i \in 1..Len(e.virt) : e.virt[i] >= 0 /\ e.virt[i] <= 5000 /\ (s.sch = 0 => e.virt[i] <= 10))

Certain == Len(C.combos) = 1
\* one round of one side: the error now, the estimate, the events used, what is wrong
Noisy(d) ==
  LET s == Side(d)
      i == at[d]
      two == ~C.single /\ s.meta
      used == IF two THEN 2 ELSE 1
  IN IF i + used - 1 > Len(s.ev) THEN [bad |-> "EveryRoundDecodes", err |-> 0, out |-> 0, used |-> 0, flips |-> 0]
  ELSE
  LET main == s.ev[i + used - 1]
      m == Len(s.h)
      raw == IF two THEN main.inp ^^ (s.ev[i].out)
             ELSE IF C.single /\ s.meta THEN main.inp % Pow2[m] ELSE main.inp
      before == res[d]
      delta == C.combos[1][IF d = "x" THEN 1 ELSE 2]
      err == IF Certain THEN before ^^ (IF delta = 1 THEN AllOn(N) ELSE 0)
             ELSE (raw ^^ (IF s.flips = {1} THEN AllOn(m) ELSE 0)) % Pow2[N]
      flips == raw ^^ Times(s.h, err)
      pcm == IF C.single /\ s.meta THEN SingleStage(s.h, s.m) ELSE IF C.atg THEN WithIdentity(s.h) ELSE s.h
      wrong == IF main.pcm # pcm THEN "DecodersHaveTheirMatrices"
               ELSE IF ~main.bin THEN "DecoderInputsAreBinary"
               ELSE IF ~Channel(s, main, C.atg) THEN "DecodersHaveTheirChannels"
               ELSE IF C.single /\ s.meta /\ (main.inp \div Pow2[m]) # Times(s.m, raw) THEN "MetaSyndromeOfTheSyndrome"
               ELSE IF two /\ (s.ev[i].pcm # s.m \/ ~s.ev[i].bin \/ s.ev[i].inp # Times(s.m, raw)) THEN "SyndromeRepairedWithMetaCode"
               ELSE IF two /\ ~Same(s.ev[i].ch, s.sch) THEN "DecodersHaveTheirChannels"
               ELSE IF \E j \in 0..(m - 1) : Bit(flips, j) \notin s.flips THEN "SyndromeOfTheErrorWithItsNoise"
               ELSE ""
  IN [bad |-> wrong, err |-> err, out |-> main.out % Pow2[N], used |-> used, flips |-> flips]
Perfect(d) ==
  LET s == Side(d)
      i == at[d]
  IN IF i > Len(s.ev) THEN [bad |-> "EveryRoundDecodes", err |-> 0, out |-> 0, used |-> 0, flips |-> 0]
  ELSE
  LET e == s.ev[i]
      delta == C.combos[1][IF d = "x" THEN 1 ELSE 2]
      err == IF Certain THEN res[d] ^^ (IF delta = 1 THEN AllOn(N) ELSE 0) ELSE e.inp % Pow2[N]
      wrong == IF e.pcm # s.h THEN "DecodersHaveTheirMatrices"
               ELSE IF ~e.bin \/ e.inp # Times(s.h, err) THEN "LastRoundIsPerfect"
               ELSE IF ~Same(e.ch, s.ch) THEN "DecodersHaveTheirChannels"
               ELSE ""
  IN [bad |-> wrong, err |-> err, out |-> e.out % Pow2[N], used |-> 1, flips |-> 0]
Combos == {<<C.combos[i][1], C.combos[i][2]>> : i \in 1..Len(C.combos)}
Possible(dx, dz) == \A q \in 0..(N - 1) : <<Bit(dx, q), Bit(dz, q)>> \in Combos

Logical(d, r) ==
  LET s == IF d = "x" THEN [h |-> C.hx, l |-> C.lz] ELSE [h |-> C.hz, l |-> C.lx]
  IN IF C.logicals THEN \E i \in 1..Len(s.l) : Par(s.l[i] & r) = 1
     ELSE Rank(Append(s.h, r)) # Rank(s.h)

RECURSIVE Sum(_, _)
Sum(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + Sum(s, i + 1)
RECURSIVE SumVar(_, _)
SumVar(s, i) == IF i > Len(s) THEN 0 ELSE ((s[i] * (10000 - s[i])) \div 10000) + SumVar(s, i + 1)
\* counts: flips seen and expected, errors of the three kinds, chances
Counted(a, x, z, noisy) ==
  LET dx == x.err ^^ res.x  dz == z.err ^^ res.z
      v == IF C.atg /\ noisy THEN C.evx[at.x + x.used - 1].virt \o C.evz[at.z + z.used - 1].virt ELSE <<>>
  IN [a EXCEPT !.fx = @ + Pop(x.flips), !.fz = @ + Pop(z.flips), !.ex = @ + Pop(dx & (dz ^^ AllOn(N))), !.ez = @ + Pop(dz & (dx ^^ AllOn(N))),
               !.ey = @ + Pop(dx & dz), !.rounds = @ + 1, !.noisy = @ + (IF noisy THEN 1 ELSE 0), !.v = @ + Sum(v, 1), !.w = @ + SumVar(v, 1)]
\* seen out of total, with chance p in ten thousandths, is within seven standard deviations
Near(seen, total, p) == LET d == seen * 100 - (total * p) \div 100  e == IF d < 0 THEN -d ELSE d
                        IN e <= 300 \/ (e < 40000 /\ (e - 100) * (e - 100) <= 49 * ((total * ((p * (10000 - p)) \div 10000)) + 1))
Calibrated(a) == LET d == (a.fx + a.fz) * 10000 - a.v  e == (IF d < 0 THEN -d ELSE d) \div 100
                 IN e <= 100 \/ (e < 40000 /\ (e - 100) * (e - 100) <= 49 * (a.w + 1))
StatWrong(a) ==
  IF C.rates = <<>> THEN ""
  ELSE IF ~Near(a.ex, a.rounds * N, C.rates[1]) \/ ~Near(a.ey, a.rounds * N, C.rates[2]) \/ ~Near(a.ez, a.rounds * N, C.rates[3]) THEN "ErrorsAtTheirRates"
  ELSE IF ~Near(a.fx, a.noisy * Len(C.hz), C.rates[4]) \/ ~Near(a.fz, a.noisy * Len(C.hx), C.rates[5]) THEN "FlipsAtTheirRates"
  ELSE IF C.atg /\ ~Calibrated(a) THEN "SoftInformationCalibrated"
  ELSE ""

Reported(r) == /\ r.runs = C.samples /\ r.x = won.x /\ r.z = won.z
               /\ r.xler = ((C.samples - won.x) * 100000) \div C.samples
               /\ r.zler = ((C.samples - won.z) * 100000) \div C.samples
               /\ r.n = C.params.n /\ r.k = C.params.k /\ r.per = C.params.per /\ r.ser = C.params.ser /\ r.cfg = C.params.cfg
\* a run stopped in the middle leaves the results of a prefix that misses less than the save interval
Samples == Len(C.evx) + Len(C.evz)
Done == C.cut.events \div (Samples \div C.samples)
CrashWrong == IF C.cut.file = <<>> THEN Done >= C.cut.every
              ELSE LET f == C.cut.file[1] IN
                   f.runs \notin 1..Done \/ Done - f.runs >= C.cut.every \/ f.x # hist[f.runs].x \/ f.z # hist[f.runs].z \/ f.cfg # C.params.cfg
EndWrong ==
  IF C.status # "ok" THEN "NoException"
  ELSE IF at.x # Len(C.evx) + 1 \/ at.z # Len(C.evz) + 1 THEN "EveryRoundDecodes"
  ELSE IF ~Reported(C.out) THEN "ResultCountsTheSuccesses"
  ELSE IF ~Reported(C.file) THEN "SavedResultIsTheResult"
  ELSE IF ~C.again THEN "SeedReproduces"
  ELSE IF Samples > 0 /\ CrashWrong THEN "CrashLeavesTheLastSave"
  ELSE StatWrong(stat)

Zero == [x |-> 0, z |-> 0]
Init == /\ c \in 1..Len(Cases) /\ sample = 1 /\ round = 0 /\ at = [x |-> 1, z |-> 1] /\ res = Zero /\ won = Zero /\ hist = <<>>
        /\ stat = [fx |-> 0, fz |-> 0, ex |-> 0, ez |-> 0, ey |-> 0, rounds |-> 0, noisy |-> 0, v |-> 0, w |-> 0] /\ bad = ""
Running == bad = "" /\ sample <= C.samples /\ C.status = "ok"
NoisyRound ==
  /\ Running /\ round < C.depth
  /\ LET x == TLCEval(Noisy("x"))  z == TLCEval(Noisy("z")) IN
     /\ bad' = IF x.bad # "" THEN x.bad ELSE IF z.bad # "" THEN z.bad
               ELSE IF ~Possible(x.err ^^ res.x, z.err ^^ res.z) THEN "ErrorsAddToTheResidual" ELSE ""
     /\ stat' = IF bad' = "" THEN Counted(stat, x, z, TRUE) ELSE stat
     /\ res' = [x |-> x.err ^^ x.out, z |-> z.err ^^ z.out]
     /\ at' = [x |-> at.x + x.used, z |-> at.z + z.used]
  /\ round' = round + 1 /\ UNCHANGED <<c, sample, won, hist>>
LastRound ==
  /\ Running /\ round = C.depth
  /\ LET x == TLCEval(IF C.perfect THEN Perfect("x") ELSE Noisy("x"))  z == TLCEval(IF C.perfect THEN Perfect("z") ELSE Noisy("z")) IN
     /\ bad' = IF x.bad # "" THEN x.bad ELSE IF z.bad # "" THEN z.bad
               ELSE IF ~Possible(x.err ^^ res.x, z.err ^^ res.z) THEN "ErrorsAddToTheResidual" ELSE ""
     /\ stat' = IF bad' = "" THEN Counted(stat, x, z, ~C.perfect) ELSE stat
     /\ won' = [x |-> won.x + (IF Logical("x", x.err ^^ x.out) THEN 0 ELSE 1), z |-> won.z + (IF Logical("z", z.err ^^ z.out) THEN 0 ELSE 1)]
     /\ hist' = Append(hist, won')
     /\ at' = [x |-> at.x + x.used, z |-> at.z + z.used]
  /\ round' = 0 /\ res' = Zero /\ sample' = sample + 1 /\ UNCHANGED c
Report == bad = "" /\ ~Running /\ sample <= C.samples + 1 /\ sample' = C.samples + 2 /\ bad' = EndWrong /\ UNCHANGED <<c, round, at, res, won, hist, stat>>
Finished == (bad # "" \/ sample = C.samples + 2) /\ UNCHANGED vars
Next == NoisyRound \/ LastRound \/ Report \/ Finished

NoException == bad # "NoException"
EveryRoundDecodes == bad # "EveryRoundDecodes"
DecodersHaveTheirMatrices == bad # "DecodersHaveTheirMatrices"
DecoderInputsAreBinary == bad # "DecoderInputsAreBinary"
DecodersHaveTheirChannels == bad # "DecodersHaveTheirChannels"
MetaSyndromeOfTheSyndrome == bad # "MetaSyndromeOfTheSyndrome"
SyndromeRepairedWithMetaCode == bad # "SyndromeRepairedWithMetaCode"
SyndromeOfTheErrorWithItsNoise == bad # "SyndromeOfTheErrorWithItsNoise"
LastRoundIsPerfect == bad # "LastRoundIsPerfect"
ErrorsAddToTheResidual == bad # "ErrorsAddToTheResidual"
ResultCountsTheSuccesses == bad # "ResultCountsTheSuccesses"
SavedResultIsTheResult == bad # "SavedResultIsTheResult"
CrashLeavesTheLastSave == bad # "CrashLeavesTheLastSave"
SeedReproduces == bad # "SeedReproduces"
ErrorsAtTheirRates == bad # "ErrorsAtTheirRates"
FlipsAtTheirRates == bad # "FlipsAtTheirRates"
SoftInformationCalibrated == bad # "SoftInformationCalibrated"
=============================================================================
