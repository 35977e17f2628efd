------------------------------- MODULE Veigar -------------------------------
(***************************************************************************)
(* The algorithm: application threads, instances, their call senders,      *)
(* reply senders, workers and reply dispatchers, the shared queues with    *)
(* their locks and signals, and the names by which processes find them.    *)
(*                                                                         *)
(* It runs together with the monitor Contract: every observable event is   *)
(* fed to it, and TLC checks on every reachable state that no event broke  *)
(* a property (Promise) and that whatever must come to an end does         *)
(* (Settled).  Time is abstract: a wait may end by timeout whenever its    *)
(* budget allows, and does end by timeout when nothing else can happen.    *)
(* All loops that only poll are cut, so behaviours are finite and liveness *)
(* is a property of the states in which nothing more can happen.           *)
(*                                                                         *)
(* Bug # "none" reintroduces a defect the library had or might get; the    *)
(* specification has to object to each of them (spec/Veigar.bugs).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Insts,      \* 1..n
          Proc,       \* instance -> process
          Chans,      \* 1..m
          Prog,       \* sequence of <<process, sequence of operations>>, the application threads
          NS, NR, NW, ND,   \* threads per instance: call senders, reply senders, workers, reply dispatchers
          Cap,        \* messages a queue takes
          LtBudget,   \* lock waits that may time out although the lock is going to be released
          EarlyTmo,   \* synchronous calls may time out at any moment
          Bug

K == INSTANCE Contract

VARIABLES mon, viol,  \* the monitor's state; what it objected to
          clk,        \* one tick per change of ownership
          I, T, qs, nm, res, flags, lt, fin, nb

vars == <<mon, viol, clk, I, T, qs, nm, res, flags, lt, fin, nb>>

TMO == 200
Apps == DOMAIN Prog
App(a) == <<0, 0, a>>
S(i, k) == <<i, 1, k>>
R(i, k) == <<i, 2, k>>
W(i, k) == <<i, 3, k>>
D(i, k) == <<i, 4, k>>
Keys == {App(a) : a \in Apps} \cup (Insts \X {1} \X (1..NS)) \cup (Insts \X {2} \X (1..NR)) \cup (Insts \X {3} \X (1..NW)) \cup (Insts \X {4} \X (1..ND))
Tid(x) == IF x[1] = 0 THEN x[3] ELSE 100 * x[1] + 10 * x[2] + x[3]
ProcOf(x) == IF x[1] = 0 THEN Prog[x[3]][1] ELSE Proc[x[1]]
NoH == <<0, 0, 0>>

Fold(m, v, es) ==
  LET RECURSIVE F(_, _, _)
      F(a, b, n) == IF n > Len(es) THEN <<a, b>>
                    ELSE F(K!Step(a, es[n]), b \cup K!Bad(a, es[n]), n + 1)
  IN F(m, v, 1)
Emit(es) == LET r == Fold(mon, viol, es) IN mon' = r[1] /\ viol' = r[2]
Silent == UNCHANGED <<mon, viol>>

NoThread == [pc |-> "none", op |-> 1, tok |-> 0, ct |-> 0, cg |-> 0, h |-> NoH, ec |-> 0, m |-> <<>>, k |-> 0, c |-> 0]
NoInst == [st |-> "down", gen |-> 0, chan |-> 0, snd |-> FALSE, rd |-> FALSE, cl |-> <<>>, rl |-> <<>>, cclosed |-> FALSE, rclosed |-> FALSE,
           cev |-> FALSE, rev |-> FALSE, canc |-> FALSE, stopE |-> FALSE, on |-> {}, rstop |-> FALSE, wstop |-> FALSE,
           cq |-> 0, rq |-> 0, cc |-> [c \in Chans |-> NoH], rc |-> [c \in Chans |-> NoH], fn |-> 0, nest |-> 0, home |-> 0]

Setup == LET ch == [c \in 1..Cardinality(Chans) |-> <<"ch", 0, c, "x", 1>>]
             is == [i \in 1..Cardinality(Insts) |-> <<"inst", 0, i, Proc[i], 0, Cap, 1000>>]
         IN <<<<"prim", 0, <<"C01">>>>>> \o ch \o is

Init == /\ mon = Fold(K!Fresh, {}, Setup)[1]
        /\ viol = {}
        /\ clk = 1
        /\ I = [i \in Insts |-> NoInst]
        /\ T = [x \in Keys |-> IF x[1] = 0 THEN [NoThread EXCEPT !.pc = "op"] ELSE NoThread]
        /\ qs = <<>>
        /\ nm = [x \in Chans \X {0, 1} |-> NoH]
        /\ res = <<>>
        /\ flags = {}
        /\ lt = LtBudget
        /\ fin = FALSE
        /\ nb = 0

At(x, pc) == T[x].pc = pc
Go(x, pc) == T' = [T EXCEPT ![x].pc = pc]

-----------------------------------------------------------------------------
(* Results *)

OkRes(tok, b) == [code |-> 0, err |-> 0, val |-> tok, b |-> b]
ErrRes == [code |-> 0, err |-> 1, val |-> -2, b |-> 0]
FailRes == [code |-> 2, err |-> 1, val |-> -2, b |-> 0]
TmoRes == [code |-> 1, err |-> 1, val |-> -2, b |-> 0]
RetEv(tok, r, via) == <<"ret", clk + (IF r.code = 1 THEN 1000 * TMO ELSE 0), tok, r.code, r.err, r.val, r.b, via,
                        IF r.code = 0 /\ r.err = 0 THEN 1 ELSE 0, IF r.code = 0 /\ r.err = 1 THEN tok ELSE 0>>
NoRes == [code |-> -1, err |-> 0, val |-> 0, b |-> 0]

\* what completing a call does: events and the new results
DoneEv(tok, r) ==
  LET kd == mon.calls[tok].kind IN
  IF kd = "s" THEN (IF res[tok] # NoRes THEN <<<<"ret", clk, tok, 0, 0, -1, 0, 0, 1, 0>>>> ELSE <<>>)
  ELSE IF kd = "p" THEN <<RetEv(tok, r, 1)>>
  ELSE <<RetEv(tok, r, 2), <<"cb1", clk, tok>>>>
DoneRes(tok, r) == IF mon.calls[tok].kind = "s" THEN [res EXCEPT ![tok] = r] ELSE res

-----------------------------------------------------------------------------
(* Queues *)

LkEv(x, l) == <<"lk", clk, l, Tid(x), ProcOf(x), x[1]>>
UlEv(x, l) == <<"ul", clk, l, Tid(x), ProcOf(x), x[1]>>
QEv(x, s) == <<"q", clk, s, Tid(x), qs[s].seq>>
Unlocked(Q, l) == [Q EXCEPT ![l].lock = 0]
Free(l) == qs[l].lock = 0
LtOk(l) == ~Free(l) /\ (lt > 0 \/ qs[l].lock = -1)
LtEv(x, l) == <<"lt", clk, l, Tid(x), ProcOf(x), x[1], 30000, 30>>
LtPay(l) == lt' = IF qs[l].lock = -1 THEN lt ELSE lt - 1

CallMsg(tok) == <<1, tok, 1, 100>>
ReplyMsg(tok, ok) == <<2, tok, IF ok THEN tok ELSE 0, 100>>

-----------------------------------------------------------------------------
(* Call senders (role 1) and reply senders (role 2) *)

List(i, ro) == IF ro = 1 THEN I[i].cl ELSE I[i].rl
Ev(i, ro) == IF ro = 1 THEN I[i].cev ELSE I[i].rev
WithEv(r, ro, b) == IF ro = 1 THEN [r EXCEPT !.cev = b] ELSE [r EXCEPT !.rev = b]
Popped(r, ro) == IF ro = 1 THEN [r EXCEPT !.cl = Tail(@)] ELSE [r EXCEPT !.rl = Tail(@)]
Cache(i, ro, c) == IF ro = 1 THEN I[i].cc[c] ELSE I[i].rc[c]
WithCache(r, ro, c, h) == IF ro = 1 THEN [r EXCEPT !.cc[c] = h] ELSE [r EXCEPT !.rc[c] = h]

SendIdle(x) ==      \* wait for the event
  LET i == x[1]  ro == x[2] IN
  /\ At(x, "s0")
  /\ \/ /\ I[i].canc /\ Go(x, "done") /\ UNCHANGED I
     \/ /\ ~I[i].canc /\ Ev(i, ro)
        /\ IF Bug = "unset-late" THEN Go(x, "s1") /\ UNCHANGED I
           ELSE Go(x, "s1") /\ I' = [I EXCEPT ![i] = WithEv(@, ro, FALSE)]
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

SendTake(x) ==      \* take the next one from the list
  LET i == x[1]  ro == x[2] IN
  /\ At(x, "s1")
  /\ IF I[i].canc THEN Go(x, "s0") /\ UNCHANGED I
     ELSE IF List(i, ro) = <<>>
     THEN (IF Bug = "unset-late" THEN Go(x, "s1u") ELSE Go(x, "s0")) /\ UNCHANGED I
     ELSE /\ LET m == Head(List(i, ro)) IN
             T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = IF Len(List(i, ro)) > 1 THEN "s1m" ELSE IF ro = 1 THEN "s2" ELSE "s3", !.tok = m[1], !.m = m, !.c = m[3], !.h = NoH, !.ec = 2]]
          /\ I' = [I EXCEPT ![i] = Popped(@, ro)]
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

SendLateUnset(x) == \* (a defect)
  /\ At(x, "s1u") /\ Go(x, "s0")
  /\ I' = [I EXCEPT ![x[1]] = WithEv(@, x[2], FALSE)]
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

SendMore(x) ==      \* there is more: let another sender see to it
  /\ At(x, "s1m") /\ Go(x, IF x[2] = 1 THEN "s2" ELSE "s3")
  /\ I' = IF Bug = "no-chain" THEN I ELSE [I EXCEPT ![x[1]] = WithEv(@, x[2], TRUE)]
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

SendOngoing(x) ==
  /\ At(x, "s2") /\ Go(x, "s3")
  /\ I' = [I EXCEPT ![x[1]].on = IF Bug = "ongoing-late" THEN @ ELSE @ \cup {T[x].tok}]
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

Self(x) == T[x].c = I[x[1]].chan

SendFind(x) ==      \* own queue, a known one, or one to be opened
  LET i == x[1]  ro == x[2]  c == T[x].c
      own == IF ro = 1 THEN I[i].cq ELSE I[i].rq
      h == Cache(i, ro, c)
      n == nm[<<c, ro - 1>>] IN
  /\ At(x, "s3")
  /\ IF Self(x) THEN T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "s4", !.h = <<own, own, own>>]] /\ UNCHANGED I
     ELSE IF h # NoH /\ (~qs[h[1]].closed \/ Bug = "stale-cache") THEN T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "s4", !.h = h]] /\ UNCHANGED I
     ELSE /\ I' = [I EXCEPT ![i] = WithCache(@, ro, c, NoH)]
          /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = IF n[1] = 0 THEN "s8" ELSE "s3l", !.h = <<n[1], 0, 0>>, !.ec = 2]]
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>
\* (a mutex is held while a queue is being opened, see Opening)
Opening(x) == \E y \in Keys : y # x /\ y[1] = x[1] /\ y[2] = x[2] /\ T[y].pc \in {"s3l", "s3r"}

SendOpenL(x) ==
  LET n == nm[<<T[x].c, x[2] - 1>>] IN
  /\ At(x, "s3l")
  /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = IF n[2] = 0 THEN "s8" ELSE "s3r", !.h[2] = n[2]]]
  /\ Silent /\ UNCHANGED <<clk, I, qs, nm, res, flags, lt, fin, nb>>

SendOpenR(x) ==
  LET i == x[1]  n == nm[<<T[x].c, x[2] - 1>>]
      h == [T[x].h EXCEPT ![3] = n[3]]
      ok == n[3] # 0 /\ (~qs[h[1]].closed \/ Bug = "open-unchecked") IN
  /\ At(x, "s3r")
  /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = IF ok THEN "s4" ELSE "s8", !.h = h]]
  /\ I' = IF ok THEN [I EXCEPT ![i] = WithCache(@, x[2], T[x].c, h)] ELSE I
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

SendLock(x) ==      \* (the lock is released at once if the queue's owner is gone)
  LET h == T[x].h IN
  /\ At(x, "s4")
  /\ \/ /\ Free(h[2])
        /\ qs' = [qs EXCEPT ![h[2]].lock = Tid(x)]
        /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = IF ~Self(x) /\ qs[h[1]].closed /\ Bug \notin {"stale-push", "stale-cache", "open-unchecked"} THEN "s7u" ELSE "s5", !.ec = 2]]
        /\ Emit(<<LkEv(x, h[2])>>) /\ UNCHANGED lt
     \/ /\ LtOk(h[2])
        /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "s7", !.ec = 1]]
        /\ LtPay(h[2]) /\ Emit(<<LtEv(x, h[2])>>) /\ UNCHANGED qs
  /\ UNCHANGED <<clk, I, nm, res, flags, fin, nb>>

Msg(x) == IF x[2] = 1 THEN CallMsg(T[x].tok) ELSE ReplyMsg(T[x].tok, T[x].m[2])

SendPush(x) ==      \* room: append, signal; none: let go of the lock and wait
  LET h == T[x].h IN
  /\ At(x, "s5")
  /\ IF Len(qs[h[1]].seq) < Cap
     THEN /\ qs' = [qs EXCEPT ![h[1]].seq = Append(@, Msg(x))]
          /\ Go(x, "s5n") /\ Silent
     ELSE IF Bug = "wait-locked" THEN Go(x, "s5b") /\ Silent /\ UNCHANGED qs
     ELSE /\ Emit(<<QEv(x, h[1]), UlEv(x, h[2])>>)
          /\ qs' = Unlocked(qs, h[2])
          /\ Go(x, "s5w")
  /\ UNCHANGED <<clk, I, nm, res, flags, lt, fin, nb>>

SendNotify(x) ==
  LET h == T[x].h IN
  /\ At(x, "s5n")
  /\ qs' = IF Bug = "no-notify" /\ Len(qs[h[1]].seq) > 1 THEN qs ELSE [qs EXCEPT ![h[3]].sem = @ + 1]
  /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "s7u", !.ec = 0]]
  /\ Silent /\ UNCHANGED <<clk, I, nm, res, flags, lt, fin, nb>>

SendWait(x) ==      \* polls until there is room; a poll that finds none changes nothing
  LET h == T[x].h IN
  /\ At(x, "s5w")
  /\ \/ /\ Free(h[2]) /\ Len(qs[h[1]].seq) < Cap
        /\ qs' = [qs EXCEPT ![h[2]].lock = Tid(x)]
        /\ Go(x, "s5") /\ Emit(<<LkEv(x, h[2])>>)
     \/ /\ I[x[1]].stopE
        /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "s7", !.ec = 1]]
        /\ Silent /\ UNCHANGED qs
  /\ UNCHANGED <<clk, I, nm, res, flags, lt, fin, nb>>

SendUnlock(x) ==
  LET h == T[x].h IN
  /\ At(x, "s7u") /\ Go(x, "s7")
  /\ qs' = Unlocked(qs, h[2])
  /\ Emit(<<QEv(x, h[1]), UlEv(x, h[2])>>)
  /\ UNCHANGED <<clk, I, nm, res, flags, lt, fin, nb>>

SendNext(x) ==      \* done, or once more with the next owner's queue
  LET i == x[1]  h == T[x].h IN
  /\ At(x, "s7")
  /\ IF T[x].ec = 0 THEN
        (IF Bug = "ongoing-late" /\ x[2] = 1 THEN Go(x, "s1") /\ I' = [I EXCEPT ![i].on = @ \cup {T[x].tok}]
         ELSE Go(x, "s1") /\ UNCHANGED I)
     ELSE IF Self(x) \/ ~qs[h[1]].closed \/ I[i].stopE THEN Go(x, "s8") /\ UNCHANGED I
     ELSE T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "s3", !.ec = 2]] /\ UNCHANGED I
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

SendFailed(x) ==
  LET i == x[1]  tok == T[x].tok  r == IF T[x].ec = 1 THEN TmoRes ELSE FailRes IN
  /\ At(x, "s8")
  /\ IF x[2] = 1 /\ (tok \in I[i].on \/ Bug = "fail-twice")
     THEN T' = [T EXCEPT ![x].pc = "s9"] /\ I' = [I EXCEPT ![i].on = @ \ {tok}]
     ELSE Go(x, "s1") /\ UNCHANGED I
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

SendComplete(x) ==
  LET tok == T[x].tok  r == IF T[x].ec = 1 THEN TmoRes ELSE FailRes IN
  /\ At(x, "s9") /\ Go(x, "s1")
  /\ Emit(DoneEv(tok, r)) /\ res' = DoneRes(tok, r)
  /\ UNCHANGED <<clk, I, qs, nm, flags, lt, fin, nb>>

Send(x) == \/ SendIdle(x) \/ SendTake(x) \/ SendLateUnset(x) \/ SendMore(x) \/ SendOngoing(x) \/ (~Opening(x) /\ SendFind(x)) \/ SendOpenL(x) \/ SendOpenR(x)
           \/ SendLock(x) \/ SendPush(x) \/ SendNotify(x) \/ SendWait(x) \/ SendUnlock(x) \/ SendNext(x) \/ SendFailed(x) \/ SendComplete(x)

-----------------------------------------------------------------------------
(* Workers (role 3) and reply dispatchers (role 4): take a message *)

OwnQ(x) == IF x[2] = 3 THEN I[x[1]].cq ELSE I[x[1]].rq
Stopped(x) == IF x[2] = 3 THEN I[x[1]].wstop ELSE I[x[1]].rstop

TakeWait(x) ==
  LET q == OwnQ(x) IN
  /\ At(x, "w0")
  /\ \/ Stopped(x) /\ Go(x, "done") /\ UNCHANGED qs
     \/ ~Stopped(x) /\ qs[q].sem > 0 /\ Go(x, "w1") /\ qs' = [qs EXCEPT ![q].sem = @ - 1]
  /\ Silent /\ UNCHANGED <<clk, I, nm, res, flags, lt, fin, nb>>

TakeLock(x) ==
  LET q == OwnQ(x) IN
  /\ At(x, "w1")
  /\ \/ Stopped(x) /\ Go(x, "done") /\ Silent /\ UNCHANGED <<qs, lt>>
     \/ /\ ~Stopped(x) /\ Free(q)
        /\ qs' = [qs EXCEPT ![q].lock = Tid(x)]
        /\ Go(x, "w2") /\ Emit(<<LkEv(x, q)>>) /\ UNCHANGED lt
     \/ /\ ~Stopped(x) /\ ~Free(q) /\ lt > 0 /\ lt' = lt - 1      \* the signal is given back
        /\ qs' = IF Bug = "signal-lost" THEN qs ELSE [qs EXCEPT ![q].sem = @ + 1]
        /\ Go(x, "w0") /\ Emit(<<LtEv(x, q)>>)
  /\ UNCHANGED <<clk, I, nm, res, flags, fin, nb>>

TakePop(x) ==
  LET q == OwnQ(x) IN
  /\ At(x, "w2")
  /\ IF qs[q].seq = <<>> THEN T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "w3", !.m = <<>>]] /\ UNCHANGED qs
     ELSE /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "w3", !.m = Head(qs[q].seq), !.tok = Head(qs[q].seq)[2]]]
          /\ qs' = [qs EXCEPT ![q].seq = Tail(@)]
  /\ Silent /\ UNCHANGED <<clk, I, nm, res, flags, lt, fin, nb>>

TakeUnlock(x) ==
  LET q == OwnQ(x) IN
  /\ At(x, "w3")
  /\ qs' = Unlocked(qs, q)
  /\ Go(x, IF T[x].m = <<>> THEN "w0" ELSE IF x[2] = 3 THEN "w4" ELSE "d4")
  /\ Emit(<<QEv(x, q), UlEv(x, q)>>)
  /\ UNCHANGED <<clk, I, nm, res, flags, lt, fin, nb>>

\* a worker executes the call and hands the reply to a reply sender
Execute(x) ==
  LET i == x[1]  tok == T[x].tok  b == I[i].fn IN
  /\ At(x, "w4")
  /\ IF b = 0 THEN T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "w6", !.ec = 1, !.k = 0]] /\ Silent
     ELSE /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = IF I[i].nest # 0 THEN "c1" ELSE "w5", !.ec = 0, !.k = b, !.c = I[i].nest]]
          /\ Emit(<<<<"ex0", clk, tok, i, b, 1, Tid(x)>>>>)
  /\ UNCHANGED <<clk, I, qs, nm, res, flags, lt, fin, nb>>

Return(x) ==
  LET i == x[1] IN
  /\ At(x, "w5") /\ Go(x, "w6")
  /\ Emit(<<<<"ex1", clk, T[x].tok, i>>>>)
  /\ UNCHANGED <<clk, I, qs, nm, res, flags, lt, fin, nb>>

Reply(x) ==
  LET i == x[1]  tok == T[x].tok IN
  /\ At(x, "w6")
  /\ IF ~I[i].snd \/ I[i].rclosed THEN Go(x, "w0") /\ UNCHANGED I
     ELSE /\ I' = [I EXCEPT ![i].rl = Append(@, <<tok, T[x].ec = 0, I[mon.calls[tok].inst].home, T[x].k>>)]
          /\ Go(x, "w7")
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

ReplySet(x) ==
  /\ At(x, "w7") /\ Go(x, "w0")
  /\ I' = [I EXCEPT ![x[1]].rev = TRUE]
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

\* a reply dispatcher completes the call, if it is still expected
Match(x) ==
  LET i == x[1]  tok == T[x].tok IN
  /\ At(x, "d4")
  /\ IF tok \in I[i].on \/ (Bug = "complete-any" /\ mon.calls[tok].inst = i)
     THEN Go(x, "d5") /\ I' = [I EXCEPT ![i].on = IF Bug = "no-erase" THEN @ ELSE @ \ {tok}]
     ELSE Go(x, "w0") /\ UNCHANGED I
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

Complete(x) ==
  LET tok == T[x].tok  r == IF T[x].m[3] = tok THEN OkRes(tok, mon.calls[tok].exb) ELSE ErrRes IN
  /\ At(x, "d5") /\ Go(x, "w0")
  /\ Emit(DoneEv(tok, r)) /\ res' = DoneRes(tok, r)
  /\ UNCHANGED <<clk, I, qs, nm, flags, lt, fin, nb>>

Take(x) == TakeWait(x) \/ TakeLock(x) \/ TakePop(x) \/ TakeUnlock(x) \/ Execute(x) \/ Return(x) \/ Reply(x) \/ ReplySet(x) \/ Match(x) \/ Complete(x)

-----------------------------------------------------------------------------
(* Calls, from an application thread or from within a function *)

Op(x) == Prog[x[3]][2][T[x].op]
Caller(x) == IF x[1] = 0 THEN Op(x)[2] ELSE x[1]
Target(x) == IF x[1] = 0 THEN Op(x)[3] ELSE T[x].c
Kind(x) == IF x[1] = 0 THEN Op(x)[4] ELSE "s"
\* what follows the operation
After(x) == IF x[1] = 0 THEN [T[x] EXCEPT !.pc = "op", !.op = @ + 1] ELSE [T[x] EXCEPT !.pc = "w5"]

Issue(x) ==
  LET i == Caller(x)  tok == Len(mon.calls) + 1 IN
  /\ At(x, "c1")
  /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = IF I[i].snd THEN "c2" ELSE "cf", !.ct = tok, !.cg = I[i].gen]]
  /\ Emit(<<<<"iss", clk, tok, i, Target(x), 1, Kind(x), TMO, 5, 0>>>>)
  /\ res' = Append(res, NoRes)
  /\ UNCHANGED <<clk, I, qs, nm, flags, lt, fin, nb>>

Enlist(x) ==
  LET i == Caller(x) IN
  /\ At(x, "c2")
  /\ IF I[i].gen # T[x].cg \/ ((~I[i].snd \/ I[i].cclosed) /\ Bug # "list-open") THEN Go(x, "cf") /\ UNCHANGED I
     ELSE Go(x, "c3") /\ I' = [I EXCEPT ![i].cl = Append(@, <<T[x].ct, TRUE, Target(x), 0>>)]
  /\ Silent /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

Wake(x) ==
  LET i == Caller(x) IN
  /\ At(x, "c3")
  /\ I' = IF I[i].gen # T[x].cg THEN I ELSE [I EXCEPT ![i].cev = TRUE]
  /\ IF Kind(x) = "s" THEN Go(x, "c4") /\ Silent
     ELSE T' = [T EXCEPT ![x] = After(x)] /\ Emit(<<<<"isd", clk, T[x].ct, 1>>>>)
  /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

\* not accepted: the result is there at once
Refused(x) ==
  LET tok == T[x].ct  kd == Kind(x) IN
  /\ At(x, "cf")
  /\ T' = [T EXCEPT ![x] = After(x)]
  /\ Emit(CASE kd = "s" -> <<RetEv(tok, FailRes, 0)>>
            [] kd = "p" -> <<<<"isd", clk, tok, 1>>, RetEv(tok, FailRes, 1)>>
            [] OTHER -> <<RetEv(tok, FailRes, 2), <<"cb1", clk, tok>>, <<"isd", clk, tok, 1>>>>)
  /\ UNCHANGED <<clk, I, qs, nm, res, flags, lt, fin, nb>>

Obtain(x) ==
  LET tok == T[x].ct IN
  /\ At(x, "c4") /\ res[tok] # NoRes
  /\ T' = [T EXCEPT ![x] = After(x)]
  /\ Emit(<<RetEv(tok, res[tok], 0)>>)
  /\ UNCHANGED <<clk, I, qs, nm, res, flags, lt, fin, nb>>

GiveUp(x) ==
  /\ At(x, "c4") /\ res[T[x].ct] = NoRes
  /\ Go(x, "c5")
  /\ Silent /\ UNCHANGED <<clk, I, qs, nm, res, flags, lt, fin, nb>>

Release(x) ==
  LET tok == T[x].ct  i == Caller(x) IN
  /\ At(x, "c5")
  /\ T' = [T EXCEPT ![x] = After(x)]
  /\ I' = IF I[i].rd /\ I[i].gen = T[x].cg THEN [I EXCEPT ![i].on = @ \ {tok}] ELSE I
  /\ Emit(<<RetEv(tok, TmoRes, 0)>>)
  /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

Calling(x) == Issue(x) \/ Enlist(x) \/ Wake(x) \/ Refused(x) \/ Obtain(x) \/ Release(x) \/ (EarlyTmo /\ GiveUp(x))

-----------------------------------------------------------------------------
(* Application threads: bring an instance up and down, bind, kill *)

Now == clk
Tick == clk' = clk + 1
Begin(x) == IF x[1] = 0 /\ At(x, "op") /\ T[x].op <= Len(Prog[x[3]][2]) THEN Op(x)[1] ELSE ""

StartCall(x) == /\ Begin(x) = "call" /\ Go(x, "c1")
                /\ Silent /\ UNCHANGED <<clk, I, qs, nm, res, flags, lt, fin, nb>>

SetFlag(x) == /\ Begin(x) = "set" /\ T' = [T EXCEPT ![x].op = @ + 1] /\ flags' = flags \cup {Op(x)[2]}
              /\ Silent /\ UNCHANGED <<clk, I, qs, nm, res, lt, fin, nb>>
WaitFlag(x) == /\ Begin(x) = "wait" /\ Op(x)[2] \in flags /\ T' = [T EXCEPT ![x].op = @ + 1]
               /\ Silent /\ UNCHANGED <<clk, I, qs, nm, res, flags, lt, fin, nb>>

Bind(x) ==
  LET i == Op(x)[2]  ok == I[i].fn = 0  b == nb + 1 IN
  /\ Begin(x) = "bind" /\ T' = [T EXCEPT ![x].op = @ + 1]
  /\ nb' = b
  /\ I' = IF ok THEN [I EXCEPT ![i] = [@ EXCEPT !.fn = b, !.nest = Op(x)[3]]] ELSE I
  /\ Emit(<<<<"bnd0", Now, b, i, 1, 0, 0, 2>>, <<"bnd1", Now, b, IF ok THEN 1 ELSE 0>>>>)
  /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin>>

Unbind(x) ==
  LET i == Op(x)[2] IN
  /\ Begin(x) = "unbind" /\ T' = [T EXCEPT ![x].op = @ + 1]
  /\ I' = [I EXCEPT ![i].fn = 0]
  /\ Emit(<<<<"unb0", Now, i, 1, T[x].op>>, <<"unb1", Now, i, 1, T[x].op>>>>)
  /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>

\* init: the sender exists before the queues do
Ini0(x) ==
  LET i == Op(x)[2]  c == Op(x)[3] IN
  /\ Begin(x) = "init"
  /\ Go(x, "i1") /\ Tick
  /\ I' = [I EXCEPT ![i] = [NoInst EXCEPT !.st = "starting", !.gen = I[i].gen + 1, !.chan = c, !.home = c, !.snd = TRUE, !.rd = TRUE,
                                          !.fn = I[i].fn, !.nest = I[i].nest]]
  /\ Emit(<<<<"ini0", Now, i, Proc[i], c, Cap, 1000, 0>>>>)
  /\ UNCHANGED <<qs, nm, res, flags, lt, fin, nb>>

\* the two queues one after the other; T.k = 0 call queue, 1 reply queue
Stale(x) ==
  LET i == Op(x)[2]  c == I[i].chan  w == T[x].k  n == nm[<<c, w>>] IN
  /\ At(x, "i1") /\ Go(x, "i2")
  /\ qs' = IF n[1] # 0 /\ Bug # "stale-open" THEN [qs EXCEPT ![n[1]].closed = TRUE] ELSE qs
  /\ nm' = [nm EXCEPT ![<<c, w>>][1] = 0]
  /\ Silent /\ UNCHANGED <<clk, I, res, flags, lt, fin, nb>>
StaleNames(x) ==
  LET i == Op(x)[2]  c == I[i].chan  w == T[x].k IN
  /\ At(x, "i2") /\ Go(x, "i3")
  /\ nm' = IF Bug = "stale-names" THEN nm ELSE [nm EXCEPT ![<<c, w>>] = NoH]
  /\ Silent /\ UNCHANGED <<clk, I, qs, res, flags, lt, fin, nb>>
MakeShm(x) ==
  LET i == Op(x)[2]  c == I[i].chan  w == T[x].k  q == Len(qs) + 1 IN
  /\ At(x, "i3") /\ Go(x, "i4")
  /\ qs' = Append(qs, [chan |-> c, w |-> w, seq |-> <<>>, lock |-> 0, sem |-> 0, closed |-> FALSE])
  /\ nm' = [nm EXCEPT ![<<c, w>>][1] = q]
  /\ I' = IF w = 0 THEN [I EXCEPT ![i].cq = q] ELSE [I EXCEPT ![i].rq = q]
  /\ Emit(<<<<"mk", Now, i, Proc[i], 1, c, w, q, 0>>, <<"mk", Now, i, Proc[i], 2, c, w, q, 1>>>>)
  /\ UNCHANGED <<clk, res, flags, lt, fin, nb>>
MakeLock(x) ==
  LET i == Op(x)[2]  c == I[i].chan  w == T[x].k  q == Len(qs) IN
  /\ At(x, "i4") /\ Go(x, "i5")
  /\ nm' = IF nm[<<c, w>>][2] = 0 THEN [nm EXCEPT ![<<c, w>>][2] = IF w = 0 THEN I[i].cq ELSE I[i].rq] ELSE nm
  /\ Silent /\ UNCHANGED <<clk, I, qs, res, flags, lt, fin, nb>>
MakeSem(x) ==
  LET i == Op(x)[2]  c == I[i].chan  w == T[x].k
      ro == IF w = 0 THEN 3 ELSE 4 IN
  /\ At(x, "i5")
  /\ nm' = IF nm[<<c, w>>][3] = 0 THEN [nm EXCEPT ![<<c, w>>][3] = IF w = 0 THEN I[i].cq ELSE I[i].rq] ELSE nm
  /\ T' = [y \in Keys |-> IF y = x THEN [T[x] EXCEPT !.pc = IF w = 0 THEN "i1" ELSE "i6", !.k = 1 - w]
                          ELSE IF y[1] = i /\ y[2] = ro THEN [NoThread EXCEPT !.pc = "w0"] ELSE T[y]]
  /\ Silent /\ UNCHANGED <<clk, I, qs, res, flags, lt, fin, nb>>
Ini1(x) ==
  LET i == Op(x)[2] IN
  /\ At(x, "i6") /\ clk' = clk + 2
  /\ T' = [y \in Keys |-> IF y = x THEN [T[x] EXCEPT !.pc = "op", !.op = @ + 1]
                          ELSE IF y[1] = i /\ y[2] \in {1, 2} THEN [NoThread EXCEPT !.pc = "s0"] ELSE T[y]]
  /\ I' = [I EXCEPT ![i].st = "up"]
  /\ Emit(<<<<"ini1", Now + 1, i, 1, 1, I[i].chan>>>>)
  /\ UNCHANGED <<qs, nm, res, flags, lt, fin, nb>>

\* uninit
Joined(i, ro) == \A y \in Keys : y[1] = i /\ y[2] = ro => T[y].pc \in {"done", "none"}
Sem(Q, q, n) == [Q EXCEPT ![q].sem = @ + n]
LetGo(x, pc, d) == /\ Go(x, pc) /\ I' = [I EXCEPT ![Op(x)[2]] = d]

Uni0(x) ==
  LET i == Op(x)[2] IN
  /\ Begin(x) = "uninit"
  /\ IF I[i].st # "up" THEN /\ T' = [T EXCEPT ![x].op = @ + 1] /\ UNCHANGED I
                            /\ Emit(<<<<"uni0", Now, i>>, <<"uni1", Now, i, 0>>>>)
     ELSE LetGo(x, "u1", [I[i] EXCEPT !.st = "stopping", !.stopE = TRUE]) /\ Emit(<<<<"uni0", Now, i>>>>)
  /\ UNCHANGED <<clk, qs, nm, res, flags, lt, fin, nb>>
Uni(x) ==
  /\ T[x].pc \in {"u1", "u2", "u3", "u5", "u6", "u7", "u8", "u9", "u10"}
  /\ LET i == Op(x)[2]  r == I[i] IN
     \/ At(x, "u1") /\ LetGo(x, "u2", [r EXCEPT !.canc = TRUE]) /\ UNCHANGED <<qs, nm>>
     \/ /\ At(x, "u2") /\ Joined(i, 1) /\ Joined(i, 2)
        /\ LetGo(x, "u3", [r EXCEPT !.cc = [c \in Chans |-> NoH], !.rc = [c \in Chans |-> NoH], !.cclosed = TRUE]) /\ UNCHANGED <<qs, nm>>
     \/ At(x, "u3") /\ (r.cl = <<>> \/ Bug = "unsent-lost") /\ LetGo(x, "u5", [r EXCEPT !.rclosed = TRUE, !.rl = <<>>, !.snd = FALSE]) /\ UNCHANGED <<qs, nm>>
     \/ At(x, "u5") /\ LetGo(x, "u6", [r EXCEPT !.rstop = TRUE]) /\ qs' = Sem(qs, r.rq, ND) /\ UNCHANGED nm
     \/ At(x, "u6") /\ (r.on = {} \/ Bug = "ongoing-lost") /\ Go(x, "u7") /\ UNCHANGED <<I, qs, nm>>
     \/ At(x, "u7") /\ Joined(i, 4) /\ Go(x, "u8") /\ UNCHANGED <<I, qs, nm>>
     \/ /\ At(x, "u8")    \* closed before its names are gone
        /\ LetGo(x, "u9", [r EXCEPT !.rd = FALSE, !.wstop = TRUE])
        /\ qs' = Sem([qs EXCEPT ![r.rq].closed = (Bug # "no-close")], r.cq, NW)
        /\ nm' = [nm EXCEPT ![<<r.chan, 1>>] = NoH]
     \/ /\ At(x, "u9") /\ Joined(i, 3)
        /\ Go(x, "u10") /\ UNCHANGED I
        /\ qs' = [qs EXCEPT ![r.cq].closed = (Bug # "no-close")]
        /\ nm' = [nm EXCEPT ![<<r.chan, 0>>][2] = 0, ![<<r.chan, 0>>][3] = 0]
     \/ /\ At(x, "u10") /\ Go(x, "u11") /\ UNCHANGED <<I, qs>>
        /\ nm' = [nm EXCEPT ![<<r.chan, 0>>] = NoH]
  /\ Silent /\ UNCHANGED <<clk, res, flags, lt, fin, nb>>
\* calls that were never sent, then calls that got no reply
UniFail(x) ==
  LET i == Op(x)[2]  r == I[i] IN
  /\ \/ /\ At(x, "u3") /\ r.cl # <<>> /\ Bug # "unsent-lost"
        /\ LET tok == Head(r.cl)[1] IN
           /\ I' = [I EXCEPT ![i].cl = Tail(@)] /\ Emit(DoneEv(tok, FailRes)) /\ res' = DoneRes(tok, FailRes)
     \/ /\ At(x, "u6") /\ r.on # {} /\ Bug # "ongoing-lost"
        /\ LET tok == CHOOSE n \in r.on : \A m \in r.on : n <= m IN
           /\ I' = [I EXCEPT ![i].on = @ \ {tok}] /\ Emit(DoneEv(tok, FailRes)) /\ res' = DoneRes(tok, FailRes)
  /\ UNCHANGED <<T, clk, qs, nm, flags, lt, fin, nb>>
Uni1(x) ==
  LET i == Op(x)[2] IN
  /\ At(x, "u11") /\ Tick
  /\ T' = [y \in Keys |-> IF y = x THEN [T[x] EXCEPT !.pc = "op", !.op = @ + 1] ELSE IF y[1] = i THEN NoThread ELSE T[y]]
  /\ I' = [I EXCEPT ![i] = [NoInst EXCEPT !.gen = I[i].gen, !.home = I[i].home]]
  /\ Emit(<<<<"uni1", Now, i, 0>>>>)
  /\ UNCHANGED <<qs, nm, res, flags, lt, fin, nb>>

\* all threads of a process stop where they are; a lock one of them holds stays locked (-1)
Kill(x) ==
  LET p == Op(x)[2]
      gone == {Tid(y) : y \in {z \in Keys : ProcOf(z) = p /\ T[z].pc \notin {"none", "dead"}}}
      L == {l \in 1..Len(qs) : qs[l].lock \in gone}
      own == {I[i].cq : i \in {j \in Insts : Proc[j] = p}} \cup {I[i].rq : i \in {j \in Insts : Proc[j] = p}}
      RECURSIVE seq(_)
      seq(Z) == IF Z = {} THEN <<>> ELSE LET l == CHOOSE z \in Z : TRUE IN <<l>> \o seq(Z \ {l}) IN
  /\ Begin(x) = "kill" /\ Tick
  /\ L \subseteq own           \* (a process killed while it holds another's lock: known finding)
  /\ T' = [y \in Keys |-> IF y = x THEN [T[x] EXCEPT !.op = @ + 1]
                          ELSE IF ProcOf(y) = p THEN [NoThread EXCEPT !.pc = "dead"] ELSE T[y]]
  /\ I' = [i \in Insts |-> IF Proc[i] = p THEN [NoInst EXCEPT !.st = "dead", !.gen = I[i].gen, !.home = I[i].home] ELSE I[i]]
  /\ qs' = [l \in 1..Len(qs) |-> IF l \in L THEN [qs[l] EXCEPT !.lock = -1] ELSE qs[l]]
  /\ Emit(<<<<"kill", Now, p, seq(L)>>>>)
  /\ UNCHANGED <<nm, res, flags, lt, fin, nb>>

AppStep(x) == StartCall(x) \/ SetFlag(x) \/ WaitFlag(x) \/ Bind(x) \/ Unbind(x) \/ Ini0(x) \/ Stale(x) \/ StaleNames(x) \/ MakeShm(x)
              \/ MakeLock(x) \/ MakeSem(x) \/ Ini1(x) \/ Uni0(x) \/ Uni(x) \/ UniFail(x) \/ Uni1(x) \/ Kill(x)

-----------------------------------------------------------------------------
(* When nothing else can happen, waits end *)

Active(x) == T[x].pc \notin {"none", "done", "dead"}
Act(x) == CASE x[1] = 0 -> AppStep(x) \/ Calling(x)
            [] x[2] \in {1, 2} -> Send(x)
            [] OTHER -> Take(x) \/ Calling(x)
\* Steps that nobody else can see and that nobody else can influence are taken at once (they commute with every other
\* step; a process that is killed before or after one of them leaves the same behind).
Eager(x) == \/ T[x].pc = "s2"
            \/ T[x].pc = "s7" /\ T[x].ec = 0
            \/ T[x].pc = "w2"                                          \* the queue is locked
            \/ T[x].pc = "s5" /\ Len(qs[T[x].h[1]].seq) < Cap
            \/ T[x].pc = "op" /\ (Begin(x) \in {"call", "set"} \/ (Begin(x) = "wait" /\ Op(x)[2] \in flags))
Hurry == {x \in Keys : Eager(x)}
Progress == IF Hurry # {} /\ Bug = "none" THEN Act(CHOOSE x \in Hurry : TRUE) ELSE \E x \in Keys : Active(x) /\ Act(x)

Expire ==
  \/ \E x \in Keys : GiveUp(x)
  \/ \E x \in Keys : /\ At(x, "s5w") /\ T' = [T EXCEPT ![x] = [@ EXCEPT !.pc = "s7", !.ec = 1]]
                     /\ Silent /\ UNCHANGED <<clk, I, qs, nm, res, flags, lt, fin, nb>>
CanExpire == \E x \in Keys : At(x, "s5w") \/ (At(x, "c4") /\ res[T[x].ct] = NoRes)

Finished(a) == T[App(a)].pc \in {"dead"} \/ (At(App(a), "op") /\ (T[App(a)].op > Len(Prog[a][2]) \/ Begin(App(a)) = "wait"))
Settle ==
  /\ ~fin /\ ~CanExpire
  /\ fin' = TRUE
  /\ LET q == <<<<"quiet", clk + 1000000000>>>>
         h == IF \A a \in Apps : Finished(a) THEN <<>> ELSE <<<<"hang", clk, 1, 1>>>>
         f == [n \in 1..Cardinality(Insts) |-> IF I[n].st = "up" THEN <<"fq", clk, n, 0, I[n].cq, Len(qs[I[n].cq].seq), IF Free(I[n].cq) THEN 1 ELSE 0>> ELSE <<"nop", clk>>]
         g == [n \in 1..Cardinality(Insts) |-> IF I[n].st = "up" THEN <<"fq", clk, n, 1, I[n].rq, Len(qs[I[n].rq].seq), IF Free(I[n].rq) THEN 1 ELSE 0>> ELSE <<"nop", clk>>]
         down == \A n \in Insts : I[n].st \in {"down", "dead"}    \* all of them are gone: nothing may be left open
         z == IF down THEN <<<<"res", clk, 0, 0, 0>>, <<"end", clk>>>> ELSE <<>>
     IN Emit(h \o f \o g \o q \o z)
  /\ UNCHANGED <<clk, I, T, qs, nm, res, flags, lt, nb>>

Next == Progress \/ (~ENABLED Progress /\ (Expire \/ Settle))
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* calls never wait for a sender that is busy while another one sleeps (C23)
Served == \A i \in Insts : \A ro \in {1, 2} :
            (/\ List(i, ro) # <<>> /\ I[i].st = "up" /\ ~I[i].canc /\ ~Ev(i, ro)
             /\ (\E k \in 1..(IF ro = 1 THEN NS ELSE NR) : At(<<i, ro, k>>, "s0")))
            => (\E y \in Keys : (T[y].pc \in {"c3", "w7"}) \/ (y[1] = i /\ y[2] = ro /\ T[y].pc \in {"s1", "s1m"}))
Promise == viol \subseteq {"KF-C17-lock"}
Settled == fin => \A a \in Apps : Finished(a)
\* a signal per message, or a worker that is about to look
Signals == \A i \in Insts : I[i].st = "up" => qs[I[i].cq].sem + Cardinality({y \in Keys : y[1] = i /\ y[2] = 3 /\ T[y].pc \in {"w1", "w2"}})
                            + Cardinality({y \in Keys : T[y].pc = "s5n" /\ T[y].h[1] = I[i].cq}) >= Len(qs[I[i].cq].seq)
=============================================================================
