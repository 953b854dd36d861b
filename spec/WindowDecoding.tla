---------------------------- MODULE WindowDecoding ----------------------------
(* Overlapping window decoding of repeated syndrome measurements. The       *)
(* machine keeps the error on the data, the recorded syndromes of the       *)
(* current window and its position. A window of R rounds is decoded from    *)
(* the differences of its syndromes; the correction of the first half is    *)
(* applied, its effect is taken out of the syndromes of the second half,    *)
(* which becomes the first half of the next window. The last window is      *)
(* decoded and corrected as a whole, its last syndrome being perfect.       *)
(* Recorded decoder calls are replayed; errors and flips left to chance     *)
(* are read off the differences and have to be possible.                    *)
EXTENDS Gf2, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, sample, t, ev, err, col, won, hist, stat, bad
vars == <<c, sample, t, ev, err, col, won, hist, stat, bad>>
C == Cases[c]
N == C.n
M == Len(C.h)
R == C.reps
T == R \div 2
AllOn(n) == Pow2[n] - 1
Times(v) == LET RECURSIVE F(_, _)
                F(i, acc) == IF i > M THEN acc ELSE F(i + 1, acc + Par(C.h[i] & v) * Pow2[i - 1])
            IN F(1, 0)
\* the rows of (diag(H) | staircase of identities), as sets of columns
Row(r, i) == {(r - 1) * N + j : j \in {j \in 0..(N - 1) : Bit(C.h[i], j) = 1}} \cup {R * N + (r - 1) * M + i - 1}
             \cup (IF r > 1 THEN {R * N + (r - 2) * M + i - 1} ELSE {})
PcmRight(p) == Len(p) = R * M /\ \A r \in 1..R, i \in 1..M : Range(p[(r - 1) * M + i]) = Row(r, i)

\* the syndromes of a window from the differences given to the decoder
RECURSIVE PrefixFrom(_, _, _)
PrefixFrom(d, i, acc) == IF i > Len(d) THEN acc ELSE PrefixFrom(d, i + 1, Append(acc, d[i] ^^ (IF i = 1 THEN 0 ELSE acc[i - 1])))
Prefix(d) == PrefixFrom(d, 1, <<>>)

Certain == Len(C.deltas) = 1
Known == C.given # <<>>
\* follows the rounds i..R of the window with recorded syndromes s: [err, errors, flips, bad]
RECURSIVE Follow(_, _, _, _)
Follow(s, i, tt, a) ==
  IF i > R \/ a.bad # "" THEN a
  ELSE LET last == tt = C.rounds
           e == IF Known THEN a.err ^^ C.given[tt][1]
                ELSE IF Certain THEN a.err ^^ (IF C.deltas[1] = 1 THEN AllOn(N) ELSE 0)
                ELSE (s[i] ^^ (IF ~last /\ C.flips = <<1>> THEN AllOn(M) ELSE 0)) % Pow2[N]
           f == s[i] ^^ Times(e)
           d == e ^^ a.err
           wrong == IF Known /\ f # C.given[tt][2] THEN "SyndromesOfTheErrors"
                    ELSE IF ~Known /\ (IF last THEN f # 0 ELSE \E j \in 0..(M - 1) : Bit(f, j) \notin Range(C.flips)) THEN "SyndromesOfTheErrors"
                    ELSE IF ~Known /\ \E q \in 0..(N - 1) : Bit(d, q) \notin Range(C.deltas) THEN "ErrorsAddUp"
                    ELSE ""
       IN Follow(s, i + 1, tt + 1, [err |-> e, ne |-> a.ne + Pop(d), nf |-> a.nf + Pop(f), bad |-> wrong, fs |-> Append(a.fs, f)])

RECURSIVE XorTo(_, _, _)
XorTo(s, i, acc) == IF i = 0 THEN acc ELSE XorTo(s, i - 1, acc ^^ s[i])
ChannelWrong(e, last) ==
  \/ \E i \in 1..(R * N) : e.ch[i] # C.dch
  \/ Len(e.ch) # R * (N + M)
  \/ \E i \in 1..(R * M) : LET v == e.ch[R * N + i] IN
       IF last /\ i > (R - 1) * M THEN v # 0 /\ ~(C.sch = 0 /\ v = 0)
       ELSE IF C.analog THEN e.virt[i] < 0 \/ e.virt[i] > 5000 \/ (e.virt[i] > 10 /\ C.sch = 0) ELSE v # C.sch
\* soft values of rounds seen before stay with their rounds
Moved(e, old, last) == old = 0 \/ ~C.analog
  \/ \A i \in 1..(T * M) : e.virt[i] = C.events[old].virt[T * M + i] \/ (last /\ T = R /\ i > (T - 1) * M)

Window(e, from) ==
  LET s == TLCEval(Prefix(e.diff))
      first == Len(col) + 1
      tend == t + R - Len(col) - 1
      last == tend = C.rounds
      a == TLCEval(Follow(s, first, t, [err |-> err, ne |-> 0, nf |-> 0, bad |-> "", fs |-> <<>>]))
      corr == XorTo(e.space, IF last THEN R ELSE T, 0)
      wrong == IF ~PcmRight(e.pcm) THEN "DecodingGraphOfTheWindow"
               ELSE IF ~e.bin THEN "DecoderInputsAreBinary"
               ELSE IF ChannelWrong(e, last) THEN "DecoderHasItsChannel"
               ELSE IF \E i \in 1..Len(col) : s[i] # col[i] THEN "NextWindowSeesWhatIsLeft"
               ELSE IF a.bad # "" THEN a.bad
               ELSE IF ~Moved(e, from, last) THEN "SoftValuesMoveWithTheirRounds"
               ELSE IF e.result # <<>> /\ e.result[1] # corr THEN "CommitsTheFirstHalf"
               ELSE IF e.result # <<>> /\ ~last /\ \E i \in 1..T : e.result[2][T + i] # s[T + i] ^^ Times(corr) THEN "NextWindowSeesWhatIsLeft"
               ELSE IF C.exact /\ last /\ a.err ^^ corr # 0 THEN "ExactEstimatesCorrectEverything"
               ELSE ""
  IN [bad |-> wrong, last |-> last, err |-> a.err ^^ corr, col |-> IF last THEN <<>> ELSE [i \in 1..T |-> s[T + i] ^^ Times(corr)],
      t |-> tend + 1, ne |-> a.ne, nf |-> a.nf, first |-> first]

Logical(r) == \E i \in 1..Len(C.l) : Par(C.l[i] & r) = 1
Near(seen, total, p) == LET d == seen * 100 - (total * p) \div 100  e == IF d < 0 THEN -d ELSE d
                        IN e <= 300 \/ (e < 40000 /\ (e - 100) * (e - 100) <= 49 * ((total * ((p * (10000 - p)) \div 10000)) + 1))
RECURSIVE SumV(_, _)
SumV(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumV(s, i + 1)
RECURSIVE SumW(_, _)
SumW(s, i) == IF i > Len(s) THEN 0 ELSE ((s[i] * (10000 - s[i])) \div 10000) + SumW(s, i + 1)
\* the soft values of the noisy rounds that are new in this window
NewVirt(e, w) == IF ~C.analog THEN <<>> ELSE SubSeq(e.virt, (w.first - 1) * M + 1, (IF w.last THEN R - 1 ELSE R) * M)
Calibrated(a) == LET d == a.nf * 10000 - a.v  e == (IF d < 0 THEN -d ELSE d) \div 100
                 IN e <= 100 \/ (e < 40000 /\ (e - 100) * (e - 100) <= 49 * (a.w + 1))
StatWrong == IF C.rates = <<>> THEN ""
             ELSE IF ~Near(stat.ne, C.samples * C.rounds * N, C.rates[1]) THEN "ErrorsAtTheirRates"
             ELSE IF ~Near(stat.nf, C.samples * (C.rounds - 1) * M, C.rates[2]) THEN "FlipsAtTheirRates"
             ELSE IF C.analog /\ ~Calibrated(stat) THEN "SoftInformationCalibrated" ELSE ""
Reported(r) == /\ r.runs = C.samples /\ r.won = won /\ r.ler = ((C.samples - won) * 100000) \div C.samples
               /\ r.n = C.params.n /\ r.k = C.params.k /\ r.per = C.params.per /\ r.ser = C.params.ser /\ r.cfg = C.params.cfg
\* a run stopped in the middle leaves the results of a prefix that misses less than the save interval
Done == C.cut.events \div (Len(C.events) \div C.samples)
CrashWrong == IF C.cut.file = <<>> THEN Done >= C.cut.every
              ELSE LET f == C.cut.file[1] IN f.runs \notin 1..Done \/ Done - f.runs >= C.cut.every \/ f.won # hist[f.runs] \/ f.cfg # C.params.cfg
EndWrong == IF ev # Len(C.events) + 1 THEN "EveryWindowDecodes"
            ELSE IF Known THEN ""
            ELSE IF ~Reported(C.out) THEN "ResultCountsTheSuccesses"
            ELSE IF ~Reported(C.file) THEN "SavedResultIsTheResult"
            ELSE IF ~C.again THEN "SeedReproduces"
            ELSE IF Len(C.events) > 0 /\ CrashWrong THEN "CrashLeavesTheLastSave"
            ELSE StatWrong

Init == /\ c \in 1..Len(Cases) /\ sample = 1 /\ t = 1 /\ ev = 1 /\ err = 0 /\ col = <<>> /\ won = 0 /\ hist = <<>>
        /\ stat = [ne |-> 0, nf |-> 0, v |-> 0, w |-> 0] /\ bad = IF Cases[c].status = "ok" THEN "" ELSE "NoException"
Decode ==
  /\ bad = "" /\ sample <= C.samples /\ ev <= Len(C.events)
  /\ LET e == C.events[ev]
         w == TLCEval(Window(e, IF col = <<>> THEN 0 ELSE ev - 1)) IN
     /\ bad' = w.bad
     /\ ev' = ev + 1
     /\ stat' = IF w.bad # "" THEN stat
                ELSE [ne |-> stat.ne + w.ne, nf |-> stat.nf + w.nf, v |-> stat.v + SumV(NewVirt(e, w), 1), w |-> stat.w + SumW(NewVirt(e, w), 1)]
     /\ col' = w.col
     /\ IF w.last THEN sample' = sample + 1 /\ t' = 1 /\ err' = 0 /\ won' = won + (IF Logical(w.err) THEN 0 ELSE 1) /\ hist' = Append(hist, won')
        ELSE sample' = sample /\ t' = w.t /\ err' = w.err /\ won' = won /\ hist' = hist
  /\ UNCHANGED c
Missing == bad = "" /\ sample <= C.samples /\ ev > Len(C.events) /\ bad' = "EveryWindowDecodes" /\ UNCHANGED <<c, sample, t, ev, err, col, won, hist, stat>>
Report == bad = "" /\ sample = C.samples + 1 /\ sample' = C.samples + 2 /\ bad' = EndWrong /\ UNCHANGED <<c, t, ev, err, col, won, hist, stat>>
Finished == (bad # "" \/ sample = C.samples + 2) /\ UNCHANGED vars
Next == Decode \/ Missing \/ Report \/ Finished

NoException == bad # "NoException"
EveryWindowDecodes == bad # "EveryWindowDecodes"
DecodingGraphOfTheWindow == bad # "DecodingGraphOfTheWindow"
DecoderInputsAreBinary == bad # "DecoderInputsAreBinary"
DecoderHasItsChannel == bad # "DecoderHasItsChannel"
SyndromesOfTheErrors == bad # "SyndromesOfTheErrors"
ErrorsAddUp == bad # "ErrorsAddUp"
NextWindowSeesWhatIsLeft == bad # "NextWindowSeesWhatIsLeft"
SoftValuesMoveWithTheirRounds == bad # "SoftValuesMoveWithTheirRounds"
CommitsTheFirstHalf == bad # "CommitsTheFirstHalf"
ExactEstimatesCorrectEverything == bad # "ExactEstimatesCorrectEverything"
ResultCountsTheSuccesses == bad # "ResultCountsTheSuccesses"
SavedResultIsTheResult == bad # "SavedResultIsTheResult"
CrashLeavesTheLastSave == bad # "CrashLeavesTheLastSave"
SeedReproduces == bad # "SeedReproduces"
ErrorsAtTheirRates == bad # "ErrorsAtTheirRates"
FlipsAtTheirRates == bad # "FlipsAtTheirRates"
SoftInformationCalibrated == bad # "SoftInformationCalibrated"
=============================================================================
