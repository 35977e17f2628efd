-------------------------------- MODULE Usage --------------------------------
(***************************************************************************)
(* What instances keep (C24).  An instance that is idle keeps its threads, *)
(* its queues, the queues of the peers it has sent to, its bound functions *)
(* and the calls whose results are still awaited - and nothing of what it  *)
(* did before.  So whenever a history comes back to a state it has been in *)
(* the resources in use are what they were.                                *)
(*                                                                         *)
(* The transition graph is printed; walks that cover it are repeated in    *)
(* one process through the public API (sim/use.cpp), and what is in use    *)
(* after every step is recorded and checked against Steady below.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Insts,  \* 1..n; channel 0 is owned by nobody, channel n+1 by an owner that takes nothing out of its queue
          Hows    \* how a call goes

VARIABLES up,     \* instances that are initialised
          fn,     \* instances that have functions bound
          know,   \* instance -> queues it has open: <<1 calls 2 replies, owner>> -> 0 no, 1 yes, 2 yes, but its owner is gone
          wait    \* instance -> number of its calls whose result is awaited
vars == <<up, fn, know, wait>>

Silent == Cardinality(Insts) + 1
Peers == Insts \cup {Silent}
Qs == {1, 2} \X Peers
Nobody == [q \in Qs |-> 0]

Node == <<up, fn, know, wait>>
Say(r) == PrintT(<<"E", ToString(Node), r, ToString(Node')>>)

Init == /\ up = {} /\ fn = {}
        /\ know = [i \in Insts |-> Nobody]
        /\ wait = [i \in Insts |-> 0]

\* an owner went: those who know it know an old one
Older(i) == [j \in Insts |-> IF j = i THEN Nobody ELSE [q \in Qs |-> IF q[2] = i /\ know[j][q] = 1 THEN 2 ELSE know[j][q]]]

Up(i) == /\ i \notin up /\ up' = up \cup {i} /\ UNCHANGED <<fn, know, wait>> /\ Say(<<"init", i>>)
Refused(i, h) == /\ i \notin up /\ UNCHANGED vars /\ Say(<<"initbad", i, h>>)
Fails(i, n) == /\ i \notin up \cup fn /\ UNCHANGED vars /\ Say(<<"initfail", i, n>>)     \* the system gives it nothing at the n-th request
Down(i) == /\ i \in up /\ up' = up \ {i} /\ fn' = fn \ {i} /\ know' = Older(i) /\ wait' = [wait EXCEPT ![i] = 0] /\ Say(<<"uninit", i>>)
\* the same while calls of it, and replies to somebody else, wait for room
Abandon(i) == /\ i \in up /\ up' = up \ {i} /\ fn' = fn \ {i} /\ know' = Older(i) /\ wait' = [wait EXCEPT ![i] = 0] /\ Say(<<"abandon", i>>)
Renew(i) == /\ i \notin up /\ fn' = fn \ {i} /\ UNCHANGED <<up, know, wait>> /\ Say(<<"renew", i>>)   \* destroyed, and another one made
Bind(i) == /\ i \notin fn /\ fn' = fn \cup {i} /\ UNCHANGED <<up, know, wait>> /\ Say(<<"bind", i>>)
Unbind(i) == /\ i \in fn /\ fn' = fn \ {i} /\ UNCHANGED <<up, know, wait>> /\ Say(<<"unbind", i>>)

Kinds(h) == CASE h = "ok" -> {"s", "p", "c"} [] h = "err" -> {"c"} [] h = "throw" -> {"p"} [] h = "big" -> {"s", "c"} [] h = "bigret" -> {"s", "p"} [] OTHER -> {"s"}

\* who is known after a call: a caller opens the target's queue, the target opens the caller's
Call(i, j, k, h) ==
  /\ i \in up
  /\ know' = IF j = i \/ (j = 0) THEN know
             ELSE IF j \notin up \cup {Silent} THEN [know EXCEPT ![i][<<1, j>>] = 0]
             ELSE IF h = "big" \/ j = Silent THEN [know EXCEPT ![i][<<1, j>>] = 1]
             ELSE [know EXCEPT ![i][<<1, j>>] = 1, ![j][<<2, i>>] = 1]
  /\ UNCHANGED <<up, fn, wait>>
  /\ Say(<<"call", i, j, k, h>>)

\* a call whose result does not come, given up later by releaseCall (or by uninit)
Await(i) == /\ i \in up /\ wait[i] = 0 /\ i = 1
            /\ wait' = [wait EXCEPT ![i] = 1]
            /\ know' = [know EXCEPT ![i][<<1, Silent>>] = 1]
            /\ UNCHANGED <<up, fn>> /\ Say(<<"await", i>>)
Release(i) == /\ i \in up /\ wait[i] = 1
              /\ wait' = [wait EXCEPT ![i] = 0]
              /\ UNCHANGED <<up, fn, know>> /\ Say(<<"release", i>>)

\* somebody puts things into the queues of i that are not messages, or replies that nobody awaits
Junk(i, k) == /\ i \in up /\ UNCHANGED vars /\ Say(<<"junk", i, k>>)

Next == \E i \in Insts :
    \/ Up(i) \/ Renew(i) \/ Down(i) \/ Abandon(i) \/ Bind(i) \/ Unbind(i) \/ Await(i) \/ Release(i)
    \/ \E k \in 1..4 : Junk(i, k)
    \/ \E h \in {"empty", "slash", "nocap"} : Refused(i, h)
    \/ \E n \in 1..16 : Fails(i, n)
    \/ \E j \in {0} \cup Peers, k \in {"s", "p", "c"}, h \in Hows : (j \in {0, Silent} => h = "ok") /\ (j = Silent => k = "s") /\ k \in Kinds(h) /\ Call(i, j, k, h)

------------------------------------------------------------- (* promises *)
\* an instance that is down has nothing open and awaits nothing; nobody's present owner is down
Clean == \A i \in Insts : i \notin up => know[i] = Nobody /\ wait[i] = 0
Known == \A i \in Insts : \A q \in Qs : know[i][q] = 1 => q[2] \in up \cup {Silent}
\* which is why use is bounded: it is a function of the state, and there are finitely many
Bounded == \A i \in Insts : Cardinality({q \in Qs : know[i][q] # 0}) <= 2 * Cardinality(Peers)

------------------------------------------------------------- (* judgement *)
(* u: what was in use at the same place of each repetition, <<blocks, handles, threads, files>>.  The first repetitions are not  *)
(* counted (buffers grow to the size they need).  A level that rises with every single repetition is not a function  *)
(* of the state.  down: nothing was initialised there, so no handle and no thread is left. *)
Skip == 2
Rising(u, m) == /\ Len(u) >= Skip + 4
                /\ \A n \in (Skip + 1)..(Len(u) - 1) : u[n + 1][m] > u[n][m]
Steady(u, down) == /\ \A m \in 1..4 : ~Rising(u, m)
                   /\ down => \A n \in 1..Len(u) : u[n][2] = 0 /\ u[n][3] = 0
=============================================================================
