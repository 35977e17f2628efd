------------------------------ MODULE MsgQueue ------------------------------
(***************************************************************************)
(* A shared message queue (C04, C05, C19).                                 *)
(*                                                                         *)
(* q is what the queue promises: the accepted messages that have not been  *)
(* popped, in order.  cnt, front, sizes, mem are the design the code uses: *)
(* a size table, and one area of bytes in which the messages lie back to   *)
(* back behind `front` free bytes, moved to the start when a message does  *)
(* not fit behind them.  Every cell of mem carries the message and offset  *)
(* it was written with, so "byte for byte" is an invariant.                *)
(*                                                                         *)
(* Every transition prints its request and the only acceptable answer; the *)
(* printed graph is covered edge by edge by walks that are replayed into   *)
(* the real MessageQueue (sim/unit.cpp).                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Cap,      \* messages the queue can hold
          Exp,      \* expected size of one message
          Emit      \* print the transitions

Total == Cap * Exp
VARIABLES q, next, cnt, front, sizes, mem
vars == <<q, next, cnt, front, sizes, mem>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Lens(s) == [i \in 1..Len(s) |-> s[i].len]
Used(s) == Sum(Lens(s))

------------------------------------------------------------- (* promise *)
Admits(s, len) == Len(s) < Cap /\ Used(s) + len <= Total
Hopeless(len) == len > Total

-------------------------------------------------------------- (* design *)
Live == SubSeq(sizes, 1, cnt)
TotalFree == Total - Sum(Live)
TailFree == TotalFree - front
DAccepts(len) == len <= Total /\ len <= TotalFree /\ cnt # Cap
Write(m, at, id, len) == [k \in DOMAIN m |-> IF k >= at /\ k < at + len THEN <<id, k - at>> ELSE m[k]]
Move(m, from, len) == [k \in DOMAIN m |-> IF k < len THEN m[from + k] ELSE m[k]]

Node(s, f) == <<Lens(s), f>>
Say(what) == IF Emit THEN PrintT(<<"E", Node(q, front), what, Node(q', front')>>) ELSE TRUE

Init == /\ q = <<>> /\ next = 1
        /\ cnt = 0 /\ front = 0
        /\ sizes = [i \in 1..Cap |-> 0]
        /\ mem = [k \in 0..(Total - 1) |-> <<0, 0>>]

Push(len) ==
    /\ IF DAccepts(len)
       THEN LET fits == TailFree >= len
                used == Sum(Live)
                m == IF fits THEN mem ELSE Move(mem, front, used)
                f == IF fits THEN front ELSE 0
            IN /\ cnt' = cnt + 1
               /\ sizes' = [sizes EXCEPT ![cnt + 1] = len]
               /\ front' = f
               /\ mem' = Write(m, f + used, next, len)
       ELSE UNCHANGED <<cnt, sizes, front, mem>>
    /\ IF Admits(q, len)
       THEN q' = Append(q, [id |-> next, len |-> len]) /\ next' = next + 1
       ELSE UNCHANGED <<q, next>>
    /\ Assert(DAccepts(len) <=> Admits(q, len), <<"admission", q, len>>)
    /\ Say(<<"push", len, IF Admits(q, len) THEN 1 ELSE 0>>)

\* buf: size of the reader's buffer
Pop(buf, name) ==
    /\ IF cnt > 0 /\ sizes[1] <= buf
       THEN /\ Assert(\A k \in 0..(sizes[1] - 1) : mem[front + k] = <<q[1].id, k>>, <<"content", q, mem, front>>)
            /\ cnt' = cnt - 1
            /\ front' = front + sizes[1]
            /\ sizes' = [i \in 1..Cap |-> IF i < cnt THEN sizes[i + 1] ELSE sizes[i]]
            /\ UNCHANGED mem
       ELSE UNCHANGED <<cnt, front, sizes, mem>>
    /\ IF q # <<>> /\ q[1].len <= buf THEN q' = Tail(q) ELSE q' = q
    /\ UNCHANGED next
    /\ Assert((cnt > 0) <=> (q # <<>>), "number")
    /\ Say(<<name, buf, IF q # <<>> /\ q[1].len <= buf THEN 1 ELSE 0, IF q = <<>> THEN 0 ELSE q[1].len>>)

\* no buffer at all
PopNull ==
    /\ UNCHANGED vars
    /\ Say(<<"popnull", 0, 0, IF q = <<>> THEN 0 ELSE q[1].len>>)

Check(len) ==
    /\ UNCHANGED vars
    /\ Assert(~Hopeless(len) => ((len <= TotalFree /\ cnt < Cap) <=> Admits(q, len)), "check")
    /\ Say(<<"check", len, IF Admits(q, len) THEN 1 ELSE 0, IF Hopeless(len) THEN 0 ELSE 1>>)

Number ==
    /\ UNCHANGED vars
    /\ Say(<<"num", Len(q)>>)

Bufs == IF q = <<>> THEN {0, 1, Total} ELSE {0, q[1].len - 1, q[1].len, q[1].len + 1, Total + 3}
Next == \/ \E len \in 1..(Total + 1) : Push(len) \/ Check(len)
        \/ \E b \in Bufs : Pop(b, "pop")
        \/ PopNull
        \/ Number

View == Node(q, front)

----------------------------------------------------- (* refinement *)
TypeOK == /\ cnt \in 0..Cap /\ front \in 0..Total
          /\ front + Sum(Live) <= Total
Refines == /\ cnt = Len(q)
           /\ \A i \in 1..cnt : /\ sizes[i] = q[i].len
                                /\ \A k \in 0..(q[i].len - 1) : mem[front + Sum(SubSeq(Live, 1, i - 1)) + k] = <<q[i].id, k>>
\* refused operations change nothing; accepted ones change exactly one end
Step == \/ q' = q
        \/ \E len \in 1..Total : Admits(q, len) /\ q' = Append(q, [id |-> next, len |-> len])
        \/ q # <<>> /\ q' = Tail(q)
Steps == [][Step]_q
=============================================================================
