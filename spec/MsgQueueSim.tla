---------------------------- MODULE MsgQueueSim ----------------------------
(* Random walks of MsgQueue's promise at realistic geometries (no cells);  *)
(* used with TLC -simulate, one successor per state, each step printed.    *)
EXTENDS Naturals, Sequences, TLC, Randomization, IOUtils
CONSTANT Steps
Geo == <<<<1, 1>>, <<1, 1000>>, <<2, 7>>, <<3, 100>>, <<5, 16>>, <<8, 512>>, <<16, 64>>, <<64, 33>>, <<128, 8>>, <<10, 4096>>, <<3, 40000>>, <<255, 3>>, <<2, 100000>>>>
VARIABLES g, lens, used, n
vars == <<g, lens, used, n>>
Cap == Geo[g][1]
Exp == Geo[g][2]
Total == Cap * Exp
Free == Total - used
Max(a, b) == IF a > b THEN a ELSE b
Pick(S) == RandomElement(S)
Sizes == {x \in {1, 2, 7, 8, 9, 63, 64, Exp - 1, Exp, Exp + 1, 2 * Exp, Free - 1, Free, Free + 1, Free \div 2, Total, Total + 1, Total + 1000,
                 Pick(1..Max(1, Exp)), Pick(1..Max(1, Total))} : x >= 1}
Admits(len) == Len(lens) < Cap /\ used + len <= Total
Init == g \in 1..Len(Geo) /\ lens = <<>> /\ used = 0 /\ n = 0
Op(k, len, b) ==
    CASE k <= 5 -> /\ PrintT(<<"S", n, Cap, Exp, "push", len, IF Admits(len) THEN 1 ELSE 0>>)
                   /\ IF Admits(len) THEN lens' = Append(lens, len) /\ used' = used + len ELSE UNCHANGED <<lens, used>>
      [] k <= 10 -> /\ PrintT(<<"S", n, Cap, Exp, "pop", b, IF lens # <<>> /\ lens[1] <= b THEN 1 ELSE 0, IF lens = <<>> THEN 0 ELSE lens[1]>>)
                    /\ IF lens # <<>> /\ lens[1] <= b THEN lens' = Tail(lens) /\ used' = used - lens[1] ELSE UNCHANGED <<lens, used>>
      [] k = 11 -> /\ PrintT(<<"S", n, Cap, Exp, "check", len, IF Admits(len) THEN 1 ELSE 0, IF len > Total THEN 0 ELSE 1>>)
                   /\ UNCHANGED <<lens, used>>
      [] OTHER -> /\ PrintT(<<"S", n, Cap, Exp, "num", Len(lens)>>)
                  /\ UNCHANGED <<lens, used>>
\* phases that fill and phases that drain, so that the walk reaches full and empty
Lean == (n \div 40) % 3
Weight(r) == IF Lean = 0 /\ r \in 6..8 THEN 1 ELSE IF Lean = 1 /\ r \in 1..3 THEN 6 ELSE r
Bufs == IF lens = <<>> THEN {0, 1, Total} ELSE {0, lens[1] - 1, lens[1], lens[1] + 1, Total + 3}
\* \E over a singleton: one random choice, evaluated once
Next == /\ n < Steps /\ n' = n + 1 /\ UNCHANGED g
        /\ \E r \in {Pick(1..12)} : \E len \in {Pick(Sizes)} : \E c \in {Pick(1..3)} : \E b \in {IF c = 1 \/ lens = <<>> THEN Pick(Bufs) ELSE lens[1]} :
              Op(Weight(r), len, b)
InRange == used <= Total /\ Len(lens) <= Cap
=============================================================================
