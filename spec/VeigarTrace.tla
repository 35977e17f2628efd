---------------------------- MODULE VeigarTrace ----------------------------
(* Traces recorded from the real code, checked against Contract.  One      *)
(* initial state per trace; every event is one step.                       *)
EXTENDS Contract, Json, IOUtils

File == IF "TRACES" \in DOMAIN IOEnv THEN IOEnv.TRACES ELSE "traces.json"
Traces == JsonDeserialize(File)

VARIABLES ti, l, s
vars == <<ti, l, s>>

Init == ti \in 1..Len(Traces) /\ l = 1 /\ s = Fresh

Next ==
  /\ l <= Len(Traces[ti])
  /\ LET e == Traces[ti][l]
         bad == Bad(s, e)
     IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"VIOL", ti, l, bad>>)
        /\ s' = Step(s, e)
        /\ l' = l + 1
        /\ IF l = Len(Traces[ti]) THEN PrintT(<<"DONE", ti, l>>) ELSE TRUE
        /\ UNCHANGED ti

Spec == Init /\ [][Next]_vars
View == <<ti, l>>
=============================================================================
