----------------------------- MODULE UsageTrace -----------------------------
(* What use.cpp recorded, checked against Usage: one initial state per     *)
(* walk, one step per place in it.                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Insts, Hows
VARIABLES up, fn, know, wait
U == INSTANCE Usage
Walks == JsonDeserialize(IOEnv.TRACES)

VARIABLES w, p
Init == w \in 1..Len(Walks) /\ p = 1 /\ up = {} /\ fn = {} /\ know = <<>> /\ wait = <<>>
Next == /\ p <= Len(Walks[w])
        /\ IF U!Steady(Walks[w][p][2], Walks[w][p][1] = 1) THEN TRUE ELSE PrintT(<<"VIOL", w, p, {"C24"}>>)
        /\ IF p = Len(Walks[w]) THEN PrintT(<<"DONE", w, p>>) ELSE TRUE
        /\ p' = p + 1
        /\ UNCHANGED <<w, up, fn, know, wait>>
=============================================================================
