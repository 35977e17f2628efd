------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Instances, channels and function registries over their whole life, as  *)
(* far as an application that does one thing at a time can see (C11, C12,  *)
(* C14, C17, C18; a concurrent application is the subject of Contract).    *)
(*                                                                         *)
(* A slot stands for a place where an instance lives; when its process is  *)
(* killed a new process with a new instance takes its place.  Every        *)
(* transition carries the request and the only acceptable answer.  The     *)
(* transition graph is printed, covered edge by edge by walks, and these   *)
(* are replayed through the public API of the real library (sim/drv.cpp).  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences, TLC

CONSTANTS Slots, Chans, Fns,
          Kills       \* processes may be killed

VARIABLES chan,   \* slot -> channel it has initialised, 0 none
          bound,  \* slot -> names bound
          peer,   \* slot -> channel -> 0 never sent anything to it, 1 to its present owner, 2 to an earlier one
          orph    \* channels whose last owner was killed
vars == <<chan, bound, peer, orph>>

Owner(c) == IF \E i \in Slots : chan[i] = c THEN CHOOSE i \in Slots : chan[i] = c ELSE 0
Down(i) == chan[i] = 0

Node == <<chan, bound, peer, orph>>
Say(r) == PrintT(<<"E", Node, r, <<chan', bound', peer', orph'>>>>)

Init == /\ chan = [i \in Slots |-> 0]
        /\ bound = [i \in Slots |-> {}]
        /\ peer = [i \in Slots |-> [c \in Chans |-> 0]]
        /\ orph = {}

\* whoever sent to c before now knows an owner that is gone
Stale(c) == [j \in Slots |-> [d \in Chans |-> IF d = c /\ peer[j][d] = 1 THEN 2 ELSE peer[j][d]]]

InitOk(i, c) ==
    /\ Down(i) /\ Owner(c) = 0
    /\ chan' = [chan EXCEPT ![i] = c]
    /\ orph' = orph \ {c}
    /\ UNCHANGED <<bound, peer>>
    /\ Say(<<"init", i, c, "good", 1, 1>>)

InitAgain(i, c) ==     \* same name: succeeds without effect; another one: refused
    /\ ~Down(i)
    /\ UNCHANGED vars
    /\ Say(<<"init", i, c, "good", IF chan[i] = c THEN 1 ELSE 0, 1>>)

InitBad(i, c, how) ==  \* unusable name or capacity
    /\ (how = "nocap" => (~Down(i) /\ chan[i] # c) \/ (Down(i) /\ Owner(c) = 0))
    /\ how = "nocap" \/ c = CHOOSE x \in Chans : TRUE
    /\ how = "nocap" => c \notin orph
    /\ UNCHANGED vars
    /\ Say(<<"init", i, c, how, 0, IF Down(i) THEN 0 ELSE 1>>)

Uninit(i) ==
    /\ ~Down(i) \/ bound[i] = {}
    /\ chan' = [chan EXCEPT ![i] = 0]
    /\ bound' = IF Down(i) THEN bound ELSE [bound EXCEPT ![i] = {}]
    /\ peer' = IF Down(i) THEN peer ELSE [Stale(chan[i]) EXCEPT ![i] = [c \in Chans |-> 0]]
    /\ UNCHANGED orph
    /\ Say(<<"uninit", i>>)

Bind(i, f) ==
    /\ bound' = [bound EXCEPT ![i] = @ \cup {f}]
    /\ UNCHANGED <<chan, peer, orph>>
    /\ Say(<<"bind", i, f, IF f \in bound[i] THEN 0 ELSE 1>>)

BindEmpty(i) ==
    /\ UNCHANGED vars
    /\ Say(<<"bind", i, 0, 0>>)

Unbind(i, f) ==
    /\ bound' = [bound EXCEPT ![i] = @ \ {f}]
    /\ UNCHANGED <<chan, peer, orph>>
    /\ Say(<<"unbind", i, f>>)

Names(i) ==
    /\ UNCHANGED vars
    /\ Say(<<"names", i, bound[i]>>)

\* what a call comes to, and who executes it
Outcome(i, c, f) == IF Down(i) THEN "no"
                    ELSE IF Owner(c) # 0 THEN (IF f \in bound[Owner(c)] THEN "value" ELSE "error")
                    ELSE IF c \in orph THEN "timeout" ELSE "failed"
Call(i, c, f, kind) ==
    /\ c \in orph => kind = "s"
    /\ LET o == Owner(c) IN
       /\ peer' = IF Down(i) \/ (o = 0 /\ c \notin orph) THEN peer
                  ELSE IF o = 0 THEN (IF peer[i][c] = 2 THEN peer ELSE [peer EXCEPT ![i][c] = 2])
                  ELSE [peer EXCEPT ![i][c] = 1, ![o][chan[i]] = 1]
       /\ UNCHANGED <<chan, bound, orph>>
       /\ Say(<<"call", i, c, f, kind, Outcome(i, c, f), IF Outcome(i, c, f) = "value" THEN o ELSE 0>>)

Kill(i) ==
    /\ Kills
    /\ chan' = [chan EXCEPT ![i] = 0]
    /\ bound' = [bound EXCEPT ![i] = {}]
    /\ peer' = IF Down(i) THEN [peer EXCEPT ![i] = [c \in Chans |-> 0]] ELSE [Stale(chan[i]) EXCEPT ![i] = [c \in Chans |-> 0]]
    /\ orph' = IF Down(i) THEN orph ELSE orph \cup {chan[i]}
    /\ Say(<<"kill", i>>)

Next == \E i \in Slots :
    \/ \E c \in Chans : \/ InitOk(i, c) \/ InitAgain(i, c)
                        \/ \E h \in {"empty", "slash", "long", "nocap"} : InitBad(i, c, h)
                        \/ \E f \in Fns : \E k \in {"s", "p", "c"} : Call(i, c, f, k)
    \/ \E f \in Fns : Bind(i, f) \/ Unbind(i, f)
    \/ Uninit(i) \/ BindEmpty(i) \/ Names(i) \/ Kill(i)

------------------------------------------------------------- (* promises *)
OneOwner == \A i, j \in Slots : i # j /\ chan[i] # 0 => chan[i] # chan[j]
OrphansUnowned == \A c \in orph : Owner(c) = 0
\* a slot that is down knows nobody; nobody's present owner is a slot that is down
Known == \A i \in Slots : \A c \in Chans : peer[i][c] = 1 => Owner(c) # 0 /\ ~Down(i)
=============================================================================
