------------------------------ MODULE TimedSem ------------------------------
(***************************************************************************)
(* Timed waits on an inter-process semaphore (C07).                        *)
(*                                                                         *)
(* One process performs a sequence of waits while others post units, take  *)
(* units and interrupt it with signals, at chosen instants.  Time is kept  *)
(* as <<seconds, milliseconds>>, and the wall clock reads Phase            *)
(* milliseconds past a full second at time zero.                           *)
(*                                                                         *)
(* promise: a wait ends successfully at the instant a unit is there for it *)
(* and otherwise, unless it is without limit, fails exactly its duration   *)
(* after it started.                                                       *)
(* design: an absolute deadline on the wall clock, computed with carry at  *)
(* the start of the wait and kept when a signal interrupts it.             *)
(*                                                                         *)
(* Complete behaviours are printed and replayed into the real Semaphore.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Phases,     \* readings of the wall clock's milliseconds at the start
          Durations,  \* set of <<s, ms>>
          Waits,      \* waits per behaviour
          Events,     \* things others do, at most
          Initial,    \* values of the semaphore at first
          Fine        \* events are placed right after the start and right before the end of a wait

VARIABLES phase, now, val, left, w, ev, hist
vars == <<phase, now, val, left, w, ev, hist>>

Never == <<-1, 0>>
Norm(s, f) == IF f >= 1000 THEN <<s + 1, f - 1000>> ELSE IF f < 0 THEN <<s - 1, f + 1000>> ELSE <<s, f>>
Add(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Sub(a, b) == Norm(a[1] - b[1], a[2] - b[2])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Zero == <<0, 0>>
None == [on |-> FALSE]
Wall(t) == Add(t, <<0, phase>>)

\* the design's deadline
Deadline(t, d) == LET s == Wall(t)[1] + d[1]
                      f == Wall(t)[2] + d[2]
                  IN IF f >= 1000 THEN <<s + 1, f - 1000>> ELSE <<s, f>>

Init == /\ phase \in Phases /\ val \in Initial
        /\ now = Zero /\ left = Waits /\ w = None /\ ev = Events
        /\ hist = <<<<"sem", val>>>>

Done(d, ok, elapsed) == hist' = Append(hist, <<"w", d, ok, elapsed>>)

\* the waiter goes from one wait to the next at once
Start(d) ==
    /\ ~w.on /\ left > 0
    /\ left' = left - 1
    /\ IF val > 0
       THEN /\ val' = val - 1 /\ UNCHANGED w
            /\ Done(d, 1, Zero)
       ELSE IF d = Zero
       THEN /\ UNCHANGED <<val, w>>
            /\ Done(d, 0, Zero)
       ELSE /\ w' = [on |-> TRUE, dur |-> d, start |-> now, dl |-> IF d = Never THEN Never ELSE Deadline(now, d)]
            /\ UNCHANGED <<val, hist>>
    /\ UNCHANGED <<phase, now, ev>>

End == Add(w.start, w.dur)
Timeout ==
    /\ w.on /\ w.dur # Never
    /\ Assert(w.dl = Wall(End), <<"deadline", w>>)
    /\ Assert(w.dl[2] \in 0..999, <<"nanoseconds", w>>)
    /\ now' = End
    /\ Done(w.dur, 0, w.dur)
    /\ w' = None
    /\ UNCHANGED <<phase, val, left, ev>>

Instants == IF Fine
            THEN {Add(now, <<0, 1>>)} \cup (IF w.dur = Never THEN {Add(now, <<3, 7>>)} ELSE {Sub(End, <<0, 2>>), Sub(End, <<0, 40>>), Sub(End, <<1, 0>>)})
            ELSE {Add(now, <<0, 1>>), Add(now, <<0, 400>>), Add(now, <<0, 999>>)}
Other(t, what) ==
    /\ w.on /\ ev > 0
    /\ Less(now, t) /\ (w.dur = Never \/ Less(t, End))
    /\ ev' = ev - 1 /\ now' = t
    /\ CASE what = "post" ->
              /\ hist' = hist \o <<<<"e", t, "post", 0>>, <<"w", w.dur, 1, Sub(t, w.start)>>>>
              /\ w' = None /\ UNCHANGED val
         [] what = "post2" ->
              /\ hist' = hist \o <<<<"e", t, "post2", 0>>, <<"w", w.dur, 1, Sub(t, w.start)>>>>
              /\ w' = None /\ val' = val + 1
         [] what = "take" ->      \* somebody else finds nothing: the waiter has it
              /\ hist' = Append(hist, <<"e", t, "take", 0>>)
              /\ UNCHANGED <<w, val>>
         [] OTHER ->              \* a signal: the wait goes on, with its deadline
              /\ hist' = Append(hist, <<"e", t, "intr", 0>>)
              /\ UNCHANGED <<w, val>>
    /\ UNCHANGED <<phase, left>>

Complete == left = 0 /\ ~w.on
Finish == /\ Complete /\ left' = -1
          /\ PrintT(<<"B", phase, hist, val>>)
          /\ UNCHANGED <<phase, now, val, w, ev, hist>>

Next == \/ \E d \in Durations : Start(d)
        \/ Timeout
        \/ w.on /\ \E t \in Instants : \E what \in {"post", "post2", "take", "intr"} : Other(t, what)
        \/ Finish

ValOK == val >= 0 /\ (w.on => val = 0)
NoEarly == w.on => (w.dur = Never \/ ~Less(End, now))
=============================================================================
