------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What a user of Veigar may rely on, as a state machine over observable   *)
(* events.  It is the single place where the meaning of the properties     *)
(* C01..C24 of properties.jsonl is written down.                           *)
(*                                                                         *)
(*   Step(s, e)   the state after event e                                  *)
(*   Bad(s, e)    the properties that event e, happening in s, violates    *)
(*                                                                         *)
(* Used in two ways: VeigarTrace.tla folds it over event traces recorded   *)
(* from the real code, and Veigar.tla runs it alongside a model of the     *)
(* algorithm, so that TLC checks on every reachable state that the         *)
(* algorithm itself never makes a Bad step.                                *)
(*                                                                         *)
(* Events (t = virtual time in microseconds).  Calls, bindings, queue      *)
(* objects, lock objects, channels and function names are numbered.        *)
(*  <<"ch",0,c,name,valid>>           channel name c                       *)
(*  <<"inst",0,i,proc,c,cap,size>>    instance i exists in process proc    *)
(*  <<"timely",0,b>>  b=1: time passes only when everybody waits, so upper *)
(*                    bounds on durations are judged as well               *)
(*  <<"prim",0,set>>  properties that promise service in this scenario     *)
(*  <<"ini0",t,i,proc,c,cap,size,empty>>  <<"ini1",t,i,ok,isInit,c>>       *)
(*  <<"uni0",t,i>>  <<"uni1",t,i,isInit>>                                  *)
(*  <<"lft",t,i,c,names,threads>>     left of i, which is not initialised  *)
(*  <<"bnd0",t,b,i,f,kind,empty,arity>> (kind 0 value, 1 throws, 2 void)   *)
(*  <<"bnd1",t,b,ok>>  <<"unb0",t,i,f,u>>  <<"unb1",t,i,f,u>>                  *)
(*  <<"nam0",t,i,u>>  <<"nam1",t,i,names,u>>                               *)
(*  <<"bst",t,i,n,failed>>  n calls to an absent channel made, so many of   *)
(*         them ended with FAILED                                          *)
(*  <<"pk",t,i,t0,isInit,c,cap,size,rw>>  what the instance said of itself *)
(*         since t0                                                        *)
(*  <<"iss",t,call,i,c,f,kind,timeout,size,shape>>  kind s/p/c;            *)
(*         shape 0 normal, 1 unconvertible, 2 no argument, 3 one argument  *)
(*  <<"isd",t,call,valid>>            asynchronous call was issued         *)
(*  <<"ret",t,call,code,hasErr,val,b,via,success,errcall>>                 *)
(*         val: call named in the value, -1 corrupt, -2 none               *)
(*  <<"thr",t,call>> exception    <<"rel",t,call>> released                *)
(*  <<"cb1",t,call>> callback returned                                     *)
(*  <<"ex0",t,call,i,b,argsok,tid>>   <<"ex1",t,call,i>>                   *)
(*  <<"mk",t,i,proc,class,c,which,o,value>> shared object created:         *)
(*         class 1 queue, 2 lock, 3 signal; which 0 call queue, 1 response *)
(*  <<"lk",t,l,tid,proc,i>>  <<"ul",..>>                                   *)
(*  <<"lt",t,l,tid,proc,i,waited,asked>>  lock not obtained in time        *)
(*  <<"q",t,o,tid,content>>           content of queue o when its lock is  *)
(*         released: <<what,call,aux,bytes>>, what 1 call (aux: arguments  *)
(*         intact), 2 reply (aux: call named in value), 3 injected, 0 junk *)
(*  <<"rc",t,o,tid,proc,w>>           queue memory touched without lock    *)
(*  <<"race",t,i,tid1,tid2,a,b>>      two accesses to memory that no       *)
(*         synchronisation of the program orders                           *)
(*  <<"kill",t,proc,locks>>  <<"inj",..>>  <<"frg",t,call,valid>>          *)
(*  <<"fault",..>> the system will refuse something                        *)
(*  <<"fq",t,i,which,o,len,lockvalue>>, <<"quiet",t>>  everything is idle  *)
(*  <<"exp",t,props,ok>>  the answer a behaviour of Lifecycle.tla predicts *)
(*  <<"res",t,proc,threads,handles>>, <<"nm2",t,c>>, <<"end",t,n>> all     *)
(*         instances uninitialised                                         *)
(*  <<"crash",..>>, <<"hang",t,actor,proc>>, <<"deadlock",t>>, ...         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Range(f) == {f[x] : x \in DOMAIN f}
If(c, S) == IF c THEN S ELSE {}
Set(f, k, v) == IF k \in DOMAIN f THEN [f EXCEPT ![k] = v] ELSE (k :> v) @@ f

SUCCESS == 0
TIMEOUT == 1
FAILED == 2

\* instance states
Down == 0
Starting == 1
Up == 2
Stopping == 3
Dead == 4

Empty == <<>>

\* calls an instance sends at a time; calls beyond that wait for their turn, at most until their own timeout
Senders == 3
\* slack (microseconds) for work that takes no waiting
SLACK == 20000
\* no run may keep a queue locked longer than this, lookers-on aside
HOLD == 4500
\* time a sender may need to notice room: one poll, one lock wait
NOTICE == 70000
\* how long a response sender waits for room
RESPWAIT == 1500000

Fresh ==
  [ now |-> 0, timely |-> FALSE, prim |-> {}, fault |-> FALSE, inj |-> 0, nkill |-> 0,
    ch |-> Empty, inst |-> Empty, calls |-> <<>>, binds |-> Empty, obj |-> Empty, lock |-> Empty,
    lastlt |-> -1, ltq |-> Empty, ltr |-> {}, res |-> FALSE, unbs |-> {} ]

-----------------------------------------------------------------------------
(* Derived notions *)

Owner(s, c) ==      \* the instance that owns channel c or is about to / was just, 0 if none
  LET X == {i \in DOMAIN s.inst : s.inst[i].chan = c /\ s.inst[i].st \in {Starting, Up, Stopping}}
  IN IF X = {} THEN 0 ELSE CHOOSE i \in X : TRUE

UpOwner(s, c) ==
  LET X == {i \in DOMAIN s.inst : s.inst[i].chan = c /\ s.inst[i].st = Up}
  IN IF X = {} THEN 0 ELSE CHOOSE i \in X : TRUE

Known(s, tok) == tok \in 1..Len(s.calls)
Pending(s) == {k \in 1..Len(s.calls) : s.calls[k].st = 0}

BytesOf(q) == LET RECURSIVE B(_)
                  B(n) == IF n = 0 THEN 0 ELSE q[n][4] + B(n - 1)
              IN B(Len(q))

TotalRoom(o) == o.cap * o.size
Fits(o, need) == Len(o.seq) < o.cap /\ BytesOf(o.seq) + need <= TotalRoom(o)

\* a message carries identifiers, channel and function names next to its payload
Overhead == 250

CallQ(s, c) ==   \* current call queue object of channel c
  LET X == {o \in DOMAIN s.obj : s.obj[o].chan = c /\ s.obj[o].which = 0 /\ s.obj[o].retired < 0}
  IN IF X = {} THEN 0 ELSE CHOOSE o \in X : TRUE
RespQ(s, c) ==
  LET X == {o \in DOMAIN s.obj : s.obj[o].chan = c /\ s.obj[o].which = 1 /\ s.obj[o].retired < 0}
  IN IF X = {} THEN 0 ELSE CHOOSE o \in X : TRUE

Wedged(s, c) == c \in DOMAIN s.ch /\ s.ch[c].wedged

\* a message of this size can never fit / might not fit in the target's queue
Hopeless(s, c, size) == LET o == CallQ(s, c) IN o # 0 /\ size > TotalRoom(s.obj[o])
MaybeHopeless(s, c, size) == LET o == CallQ(s, c) IN o = 0 \/ size + Overhead > TotalRoom(s.obj[o])
RespMaybeHopeless(s, i, size) ==
  LET o == RespQ(s, s.inst[i].chan) IN o = 0 \/ size + Overhead > TotalRoom(s.obj[o])

\* caller and target were both in service all the time since the call was issued, and nothing external interfered
Undisturbed(s, k) ==
  LET k0 == s.calls[k] IN
  /\ k0.ok0 /\ k0.tinst # 0 /\ ~k0.dist /\ ~s.fault
  /\ ~Wedged(s, k0.chan) /\ ~Wedged(s, s.inst[k0.inst].chan)
  /\ s.inst[k0.inst].st = Up /\ s.inst[k0.tinst].st = Up

\* the call has to get through: nobody kept a lock too long, the message fits, the timeout is not tiny
MustDeliver(s, k) ==
  LET k0 == s.calls[k] IN
  /\ s.timely /\ Undisturbed(s, k) /\ s.lastlt < k0.t0
  /\ ~MaybeHopeless(s, k0.chan, k0.size) /\ ~RespMaybeHopeless(s, k0.inst, k0.size)
  /\ k0.tmo >= 200

\* the reply may have been lost for a reason the properties concede
ReplyExcused(s, k) ==
  LET k0 == s.calls[k] IN
  \/ ~Undisturbed(s, k)
  \/ k0.frg
  \/ k0.nex > 0 /\ k0.exend < 0                              \* the function has not returned
  \/ \E x \in s.ltr : x[1] = s.inst[k0.tinst].proc /\ x[2] = s.inst[k0.inst].chan /\ x[3] >= k0.t0
  \/ RespMaybeHopeless(s, k0.inst, Max2(k0.size, IF k0.exb > 0 /\ s.binds[k0.exb].kind = 1 THEN 6000 ELSE k0.size))
  \/ LET o == RespQ(s, s.inst[k0.inst].chan) IN o # 0 /\ s.obj[o].starved

\* replies of the instance that executed k which waited or wait while that of k is to be sent
BlockedReplies(s, k, t) ==
  LET k0 == s.calls[k]  from == Max2(k0.popAt, k0.exend) IN
  {n \in 1..Len(s.calls) \ {k} :
     LET c == s.calls[n]  a == Max2(c.popAt, c.exend) IN
     /\ c.chan = k0.chan /\ c.pop /\ ~(c.nex > 0 /\ c.exend < 0)
     /\ IF c.renq = 0 THEN t - a > 5000 ELSE c.rqAt >= from /\ c.rqAt - a > 5000}

\* until when somebody who is no instance kept the queue of the channel locked
OutsideUntil(s, c, w, t) ==
  LET L == {l \in DOMAIN s.lock : s.lock[l].chan = c /\ s.lock[l].which = w}
      U(l) == IF s.lock[l].holder >= 0 /\ s.lock[l].inst = 0 THEN t ELSE s.lock[l].out
  IN IF L = {} THEN -1 ELSE CHOOSE u \in {U(l) : l \in L} : \A l \in L : U(l) <= u

\* when the lock of the queue was last not obtained in time
LastLt(s, c, w) == IF <<c, w>> \in DOMAIN s.ltq THEN s.ltq[<<c, w>>] ELSE -1

Shutting(s, k) == LET k0 == s.calls[k] IN s.inst[k0.inst].st # Up \/ k0.dist

-----------------------------------------------------------------------------
(* The effect of events *)

MarkCalls(s, P(_), F(_)) ==   \* F(call) for the pending calls satisfying P
  [s EXCEPT !.calls = [k \in 1..Len(s.calls) |-> IF s.calls[k].st = 0 /\ P(s.calls[k]) THEN F(s.calls[k]) ELSE s.calls[k]]]

SetDist(k) == [k EXCEPT !.dist = TRUE]

StepIni0(s, e) ==
  LET i == e[3]  c == e[5]  r == s.inst[i] IN
  IF r.st \in {Up, Stopping, Starting} THEN [s EXCEPT !.inst[i].re = c]
  ELSE LET s1 == [s EXCEPT !.inst[i] = [@ EXCEPT !.st = Starting, !.proc = e[4], !.chan = c, !.cap = e[6], !.size = e[7],
                                               !.re = -1, !.iniAt = e[2]]]
       IN MarkCalls(s1, LAMBDA k : k.chan = c, LAMBDA k : [k EXCEPT !.dist = TRUE, !.absent = FALSE])

StepIni1(s, e) ==
  LET i == e[3]  r == s.inst[i]  c == r.chan IN
  IF r.re >= 0 THEN [s EXCEPT !.inst[i].re = -1]
  ELSE IF e[5] = 1
       THEN [s EXCEPT !.inst[i] = [@ EXCEPT !.st = Up, !.upAt = e[2], !.gen = @ + 1],
                      !.ch[c] = [@ EXCEPT !.nown = @ + 1, !.killed = FALSE, !.wedged = FALSE, !.upAt = e[2]],
                      \* queues that were not made anew are now those of this owner
                      !.obj = [o \in DOMAIN s.obj |->
                                 IF s.obj[o].chan = c /\ s.obj[o].retired < 0
                                 THEN [s.obj[o] EXCEPT !.owner = i, !.cap = r.cap, !.size = r.size] ELSE s.obj[o]]]
       ELSE [s EXCEPT !.inst[i] = [@ EXCEPT !.st = Down, !.chan = 0, !.downAt = e[2]]]

\* lists of names being made: the names they must and may contain
Nams(ns, F(_)) == [u \in DOMAIN ns |-> F(ns[u])]

StepUni0(s, e) ==
  LET i == e[3] IN
  IF s.inst[i].st # Up THEN s
  ELSE LET s1 == [s EXCEPT !.inst[i] = [@ EXCEPT !.st = Stopping, !.uniAt = e[2], !.nams = Nams(@, LAMBDA r : [r EXCEPT !.sure = {}])]]
           c == s.inst[i].chan
           s2 == MarkCalls(s1, LAMBDA k : k.inst = i \/ k.chan = c, SetDist)
       IN [s2 EXCEPT !.binds = [b \in DOMAIN s.binds |->
                                  IF s.binds[b].inst = i THEN [s.binds[b] EXCEPT !.unbSince = TRUE] ELSE s.binds[b]]]

Retire(s, c, t) ==
  [s EXCEPT !.obj = [o \in DOMAIN s.obj |-> IF s.obj[o].chan = c /\ s.obj[o].retired < 0
                                            THEN [s.obj[o] EXCEPT !.retired = t] ELSE s.obj[o]]]

StepUni1(s, e) ==
  LET i == e[3] IN
  IF s.inst[i].st # Stopping THEN s
  ELSE LET c == s.inst[i].chan
           s1 == Retire(s, c, e[2])
       IN [s1 EXCEPT !.inst[i] = [@ EXCEPT !.st = Down, !.chan = 0, !.lastc = c, !.downAt = e[2]],
                     !.binds = [b \in DOMAIN s.binds |->
                                  IF s.binds[b].inst = i /\ s.binds[b].st \in {2, 3}
                                  THEN [s.binds[b] EXCEPT !.st = 4, !.endAt = e[2]] ELSE s.binds[b]]]

\* bindings: st 1 being bound, 2 bound, 3 perhaps bound, 4 ended, 5 refused
StepBnd0(s, e) ==
  LET b == e[3]  i == e[4]  f == e[5]
      others == {x \in DOMAIN s.binds : s.binds[x].inst = i /\ s.binds[x].fid = f /\ s.binds[x].st \in {1, 2, 3}}
      rec == [inst |-> i, fid |-> f, kind |-> e[6], empty |-> (e[7] = 1), ar |-> e[8], st |-> 1, endAt |-> -1,
              mustOk |-> (others = {}), um |-> {},
              unbSince |-> s.inst[i].st = Stopping \/ (\E u \in s.unbs : u[2] = i /\ u[3] = f)]
      s1 == [s EXCEPT !.binds = Set([x \in DOMAIN s.binds |->
                                        IF x \in others THEN [s.binds[x] EXCEPT !.mustOk = FALSE] ELSE s.binds[x]], b, rec),
                      !.inst[i].nams = Nams(@, LAMBDA r : [r EXCEPT !.maybe = @ \cup {f}])]
  IN MarkCalls(s1, LAMBDA k : k.fid = f, LAMBDA k : [k EXCEPT !.bany = TRUE])

StepBnd1(s, e) == [s EXCEPT !.binds[e[3]].st = IF e[4] # 1 THEN 5 ELSE IF s.binds[e[3]].unbSince THEN 3 ELSE 2]

StepUnb0(s, e) ==
  LET i == e[3]  f == e[4]  u == e[5]
      s1 == [s EXCEPT !.binds = [b \in DOMAIN s.binds |->
               LET r == s.binds[b] IN
               IF r.inst = i /\ r.fid = f /\ r.st \in {1, 2, 3}
               THEN [r EXCEPT !.unbSince = TRUE, !.st = IF @ = 2 THEN 3 ELSE @, !.um = IF r.st = 1 THEN @ ELSE @ \cup {u}] ELSE r],
               !.inst[i].nams = Nams(@, LAMBDA r : [r EXCEPT !.sure = @ \ {f}]), !.unbs = @ \cup {<<u, i, f>>}]
  IN MarkCalls(s1, LAMBDA k : k.fid = f, LAMBDA k : [k EXCEPT !.ball = FALSE])

StepUnb1(s, e) ==
  LET u == e[5]
  IN [s EXCEPT !.unbs = {x \in @ : x[1] # u},
               !.binds = [b \in DOMAIN s.binds |->
                  LET r == s.binds[b] IN IF u \in r.um /\ r.st = 3 THEN [r EXCEPT !.st = 4, !.endAt = e[2]] ELSE r]]

NamesOf(s, i, S) == {s.binds[b].fid : b \in {x \in DOMAIN s.binds : s.binds[x].inst = i /\ s.binds[x].st \in S}}

StepNam0(s, e) ==
  LET i == e[3] IN
  [s EXCEPT !.inst[i].nams = Set(@, e[4], [sure |-> IF s.inst[i].st = Stopping THEN {} ELSE NamesOf(s, i, {2}), maybe |-> NamesOf(s, i, {1, 2, 3})])]

StepIss(s, e) ==
  LET i == e[4]  c == e[5]  f == e[6]  tgt == UpOwner(s, c)
      bs == {b \in DOMAIN s.binds : s.binds[b].inst = tgt /\ s.binds[b].fid = f}
      o == CallQ(s, c)
      rec == [ inst |-> i, chan |-> c, fid |-> f, kind |-> e[7], tmo |-> e[8], size |-> e[9], shape |-> e[10], t0 |-> e[2],
               ok0 |-> s.inst[i].st = Up, tinst |-> tgt, absent |-> Owner(s, c) = 0 /\ ~s.ch[c].killed,
               dist |-> s.inst[i].st \in {Starting, Stopping}, retAt |-> -1,
               bany |-> (\E b \in bs : s.binds[b].st \in {1, 2, 3}), ball |-> (\E b \in bs : s.binds[b].st = 2),
               nex |-> 0, exb |-> 0, exi |-> 0, exend |-> -1, enq |-> 0, enqo |-> 0, enqAt |-> -1, pop |-> FALSE, popAt |-> -1,
               renq |-> 0, rqAt |-> -1,
               st |-> 0, code |-> -1, rel |-> FALSE, frg |-> FALSE, valid |-> TRUE, thr |-> FALSE, hol |-> FALSE,
               fit |-> IF o # 0 /\ Fits(s.obj[o], e[9] + Overhead) THEN e[2] ELSE -1 ]
      s1 == [s EXCEPT !.calls = Append(@, rec)]
      unsent == {n \in 1..Len(s1.calls) : LET k == s1.calls[n] IN
                   \* (the sender may notice a little later that a synchronous call was given up)
                   k.inst = i /\ k.enq = 0 /\ (k.st = 0 \/ (k.kind = "s" /\ k.code = TIMEOUT /\ e[2] - k.retAt < 100000))}
  IN IF Cardinality(unsent) <= Senders THEN s1
     ELSE [s1 EXCEPT !.calls = [n \in 1..Len(s1.calls) |-> IF n \in unsent THEN [s1.calls[n] EXCEPT !.hol = TRUE] ELSE s1.calls[n]]]

\* callbacks that begin while their instance is being uninitialised keep it busy if nothing but callbacks held them up
StepRet(s, e) ==
  LET k == s.calls[e[3]]  r == s.inst[k.inst]
      counts == k.kind = "c" /\ (r.st # Stopping \/ r.cbs # {} \/ e[2] - Max2(r.uniAt, r.cbusy) <= 100000 + SLACK)
  IN [s EXCEPT !.calls[e[3]] = [@ EXCEPT !.st = 1, !.code = e[4], !.retAt = e[2]],
               !.inst[k.inst] = IF counts THEN [@ EXCEPT !.busy = e[2], !.cbusy = e[2], !.cbs = @ \cup {e[3]}] ELSE @]

StepEx0(s, e) ==
  IF ~Known(s, e[3]) THEN s
  ELSE [s EXCEPT !.calls[e[3]] = [@ EXCEPT !.nex = @ + 1, !.exb = e[5], !.exi = e[4], !.exend = -1]]

StepEx1(s, e) ==
  LET s1 == IF e[4] \in DOMAIN s.inst THEN [s EXCEPT !.inst[e[4]].busy = e[2]] ELSE s
  IN IF ~Known(s, e[3]) THEN s1 ELSE [s1 EXCEPT !.calls[e[3]].exend = e[2]]

StepMk(s, e) ==
  LET t == e[2]  i == e[3]  c == e[6]  w == e[7]  n == e[8] IN
  IF e[5] = 1
  THEN LET old == [o \in DOMAIN s.obj |-> IF s.obj[o].chan = c /\ s.obj[o].which = w /\ s.obj[o].retired < 0
                                          THEN [s.obj[o] EXCEPT !.retired = t] ELSE s.obj[o]]
           rec == [chan |-> c, which |-> w, owner |-> i, cap |-> IF i \in DOMAIN s.inst THEN s.inst[i].cap ELSE 0,
                   size |-> IF i \in DOMAIN s.inst THEN s.inst[i].size ELSE 0, seq |-> <<>>, retired |-> -1,
                   lowAt |-> -1, okAt |-> t, starved |-> FALSE]
       IN [s EXCEPT !.obj = Set(old, n, rec)]
  ELSE IF e[5] = 2
  THEN [s EXCEPT !.lock = Set(@, n, [chan |-> c, which |-> w, holder |-> -1, since |-> t, inst |-> 0, proc |-> 0, out |-> -1])]
  ELSE s

StepLk(s, e) ==
  IF e[3] \notin DOMAIN s.lock THEN s
  ELSE [s EXCEPT !.lock[e[3]] = [@ EXCEPT !.holder = e[4], !.since = e[2], !.inst = e[6], !.proc = e[5]]]
StepUl(s, e) == IF e[3] \notin DOMAIN s.lock THEN s ELSE [s EXCEPT !.lock[e[3]] = [@ EXCEPT !.out = IF s.lock[e[3]].inst = 0 THEN e[2] ELSE @, !.holder = -1]]

StepLt(s, e) ==
  LET s0 == [s EXCEPT !.lastlt = e[2]]
      s1 == IF e[3] \in DOMAIN s.lock THEN [s0 EXCEPT !.ltq = Set(@, <<s.lock[e[3]].chan, s.lock[e[3]].which>>, e[2])] ELSE s0 IN
  IF e[3] \in DOMAIN s.lock /\ s.lock[e[3]].which = 1 THEN [s1 EXCEPT !.ltr = @ \cup {<<e[5], s.lock[e[3]].chan, e[2]>>}] ELSE s1

\* how many messages were taken from the front, -1 if the content cannot have come about by pops and pushes
Pops(old, new) ==
  LET ok(k) == Len(old) - k <= Len(new) /\ SubSeq(new, 1, Len(old) - k) = SubSeq(old, k + 1, Len(old))
      S == {k \in 0..Len(old) : ok(k)}
  IN CHOOSE k \in S : \A j \in S : k <= j

ApplyPop(calls, m, t) == IF m[1] = 1 /\ m[2] \in 1..Len(calls) THEN [calls EXCEPT ![m[2]] = [@ EXCEPT !.pop = TRUE, !.popAt = t]] ELSE calls
ApplyPush(calls, m, o, t) ==
  IF m[2] \notin 1..Len(calls) THEN calls
  ELSE IF m[1] = 1 THEN [calls EXCEPT ![m[2]] = [@ EXCEPT !.enq = @ + 1, !.enqo = o, !.enqAt = t]]
  ELSE IF m[1] = 2 THEN [calls EXCEPT ![m[2]] = [@ EXCEPT !.renq = @ + 1, !.rqAt = t]]
  ELSE calls

StepQ(s, e) ==
  LET t == e[2]  o == e[3]  new == e[5] IN
  IF o \notin DOMAIN s.obj THEN s
  ELSE
  LET r == s.obj[o]  old == r.seq  k == Pops(old, new)
      popped == SubSeq(old, 1, k)
      pushed == SubSeq(new, Len(old) - k + 1, Len(new))
      RECURSIVE P(_, _), Q(_, _)
      P(cs, n) == IF n > Len(popped) THEN cs ELSE P(ApplyPop(cs, popped[n], t), n + 1)
      Q(cs, n) == IF n > Len(pushed) THEN cs ELSE Q(ApplyPush(cs, pushed[n], o, t), n + 1)
      c1 == Q(P(s.calls, 1), 1)
      r1 == [r EXCEPT !.seq = new]
      full == ~Fits(r1, 1500)
      r2 == [r1 EXCEPT !.lowAt = IF full THEN (IF r.lowAt < 0 THEN t ELSE r.lowAt) ELSE -1,
                       !.okAt = IF ~full /\ r.lowAt >= 0 THEN t ELSE @,
                       !.starved = r.starved \/ (r.lowAt >= 0 /\ t - r.lowAt >= RESPWAIT - 100000)]
      c2 == IF r.which # 0 \/ r.retired >= 0 THEN c1
            ELSE [n \in 1..Len(c1) |->
                   IF c1[n].st = 0 /\ c1[n].enq = 0 /\ c1[n].chan = r.chan
                   THEN IF Fits(r1, c1[n].size + Overhead)
                        THEN (IF c1[n].fit >= 0 THEN c1[n] ELSE [c1[n] EXCEPT !.fit = t])
                        ELSE [c1[n] EXCEPT !.fit = -1]
                   ELSE c1[n]]
  IN [s EXCEPT !.obj[o] = r2, !.calls = c2]

StepKill(s, e) ==
  LET p == e[3]
      gone == {i \in DOMAIN s.inst : s.inst[i].proc = p}
      chans == {s.inst[i].chan : i \in {x \in gone : s.inst[x].st \in {Starting, Up, Stopping}}}
      held == Range(e[4]) \cap DOMAIN s.lock
      wedge == {s.lock[l].chan : l \in held} \ chans
      s1 == [s EXCEPT !.nkill = @ + 1,
                      !.inst = [i \in DOMAIN s.inst |-> IF i \in gone /\ s.inst[i].st # Dead THEN [s.inst[i] EXCEPT !.st = Dead] ELSE s.inst[i]],
                      !.ch = [c \in DOMAIN s.ch |-> [s.ch[c] EXCEPT !.killed = @ \/ c \in chans, !.wedged = @ \/ c \in wedge]]]
  IN MarkCalls(s1, LAMBDA k : k.inst \in gone \/ k.chan \in chans, SetDist)

NoInst == [proc |-> 0, chan |-> 0, lastc |-> 0, cap |-> 0, size |-> 0, st |-> Down, re |-> -1, gen |-> 0, iniAt |-> -1, upAt |-> -1,
           uniAt |-> -1, downAt |-> -1, busy |-> -1, cbusy |-> -1, cbs |-> {}, rw |-> 30, rws |-> {30}, nams |-> Empty]

Step(s0, e) ==
  LET s == [s0 EXCEPT !.now = Max2(@, e[2])]  n == e[1] IN
  CASE n = "ch" -> [s EXCEPT !.ch = Set(@, e[3], [valid |-> e[5] = 1, nown |-> 0, killed |-> FALSE, wedged |-> FALSE, upAt |-> -1])]
    [] n = "inst" -> [s EXCEPT !.inst = Set(@, e[3], [NoInst EXCEPT !.proc = e[4], !.cap = e[6], !.size = e[7]])]
    [] n = "timely" -> [s EXCEPT !.timely = (e[3] = 1)]
    [] n = "prim" -> [s EXCEPT !.prim = Range(e[3])]
    [] n = "ini0" -> StepIni0(s, e)
    [] n = "ini1" -> StepIni1(s, e)
    [] n = "uni0" -> StepUni0(s, e)
    [] n = "uni1" -> StepUni1(s, e)
    [] n = "bnd0" -> StepBnd0(s, e)
    [] n = "bnd1" -> StepBnd1(s, e)
    [] n = "unb0" -> StepUnb0(s, e)
    [] n = "unb1" -> StepUnb1(s, e)
    [] n = "nam0" -> StepNam0(s, e)
    [] n = "rw" -> [s EXCEPT !.inst[e[3]] = [@ EXCEPT !.rw = IF e[4] > 0 THEN e[4] ELSE @, !.rws = IF e[4] > 0 THEN @ \cup {e[4]} ELSE @]]
    [] n = "iss" -> StepIss(s, e)
    [] n = "isd" -> [s EXCEPT !.calls[e[3]].valid = (e[4] = 1)]
    [] n = "ret" -> StepRet(s, e)
    [] n = "thr" -> [s EXCEPT !.calls[e[3]] = [@ EXCEPT !.st = 1, !.thr = TRUE]]
    [] n = "rel" -> [s EXCEPT !.calls[e[3]].rel = TRUE]
    [] n = "cb1" -> IF e[3] \in s.inst[s.calls[e[3]].inst].cbs
                   THEN [s EXCEPT !.inst[s.calls[e[3]].inst] = [@ EXCEPT !.busy = e[2], !.cbusy = e[2], !.cbs = @ \ {e[3]}]]
                   ELSE s
    [] n = "ex0" -> StepEx0(s, e)
    [] n = "ex1" -> StepEx1(s, e)
    [] n = "mk" -> StepMk(s, e)
    [] n = "lk" -> StepLk(s, e)
    [] n = "ul" -> StepUl(s, e)
    [] n = "lt" -> StepLt(s, e)
    [] n = "q" -> StepQ(s, e)
    [] n = "kill" -> StepKill(s, e)
    [] n = "inj" -> [s EXCEPT !.inj = @ + 1]
    [] n = "frg" -> IF e[4] = 1 THEN [s EXCEPT !.calls[e[3]].frg = TRUE, !.inj = @ + 1] ELSE [s EXCEPT !.inj = @ + 1]
    [] n = "fault" -> [s EXCEPT !.fault = e[3] # 0]
    [] n = "res" -> [s EXCEPT !.res = TRUE]
    [] OTHER -> s

-----------------------------------------------------------------------------
(* What an event must not be *)

BadIni1(s, e) ==
  LET i == e[3]  r == s.inst[i]  ok == e[4] = 1  is == e[5] = 1 IN
  IF r.re >= 0
  THEN If(ok # (r.re = r.chan) \/ ~is \/ e[6] # r.chan, {"C12"})
  ELSE LET c == r.chan
           bad == ~s.ch[c].valid \/ r.cap <= 0 \/ r.size < 0
           odd == r.cap > 100000 \/ r.size > 10000000 \/ r.size = 0
           good == ~bad /\ ~odd /\ ~s.fault
       IN If(ok # is, {"C12"})
          \cup If(bad /\ ok, {"C12"})
          \cup If(good /\ ~ok, {"C12"} \cup If(s.ch[c].killed, {"C17"}))
          \cup If(ok /\ e[6] # c, {"C12"})

BadUni1(s, e) ==
  LET i == e[3]  r == s.inst[i] IN
  If(e[4] # 0, {"C12"})
  \cup If(s.timely /\ r.st = Stopping /\ e[2] - Max2(r.uniAt, r.busy) > 100000 + SLACK, {"C13"})

BadPk(s, e) ==
  LET r == s.inst[e[3]] IN
  If(r.st = Up /\ r.upAt < e[4] /\ (e[5] # 1 \/ e[6] # r.chan \/ e[7] # r.cap \/ e[8] # r.size), {"C12"})
  \cup If(r.st = Down /\ r.downAt < e[4] /\ e[5] # 0, {"C12"})
  \cup If(e[9] \notin r.rws, {"C10"})

BadLft(s, e) ==
  LET c == e[4] IN
  If(e[5] # 0 /\ Owner(s, c) = 0 /\ ~s.ch[c].killed, {"C12"}) \cup If(e[6] # 0, {"C12"})

BadBnd1(s, e) ==
  LET b == e[3]  r == s.binds[b]  ok == e[4] = 1
      others == {x \in DOMAIN s.binds \ {b} : s.binds[x].inst = r.inst /\ s.binds[x].fid = r.fid /\ s.binds[x].st = 2}
  IN If(ok /\ r.empty, {"C14"})
     \cup If(ok /\ others # {} /\ ~r.unbSince, {"C14"})
     \cup If(~ok /\ ~r.empty /\ r.mustOk, {"C14"})

BadNam1(s, e) ==
  LET r == s.inst[e[3]].nams[e[5]]  L == e[4] IN
  If(~(r.sure \subseteq Range(L)) \/ ~(Range(L) \subseteq r.maybe) \/ Cardinality(Range(L)) # Len(L), {"C14"})

\* taken out of the queue, and yet its function does not start
NotRun(s, tok, t) ==
  LET k == s.calls[tok]  r == s.inst[k.tinst] IN
  s.timely /\ ~s.fault /\ k.pop /\ t - k.popAt > 100000 + SLACK /\ k.tinst \in DOMAIN s.inst
  /\ r.st = Up /\ r.upAt <= k.t0 /\ k.enqAt >= r.iniAt

BadEx0(s, e) ==
  LET tok == e[3]  i == e[4]  b == e[5]  r == s.inst[i] IN
  If(r.st \in {Down, Dead}, {"C13"} \cup s.prim)
  \cup
  \* calls still queued are not served: only callbacks may keep uninit from stopping the workers
  If(s.timely /\ r.st = Stopping /\ r.cbs = {} /\ e[2] - Max2(r.uniAt, r.cbusy) > 100000 + SLACK, {"C13"})
  \cup
  IF ~Known(s, tok) THEN {"C16", "C03"}
  ELSE LET k == s.calls[tok] IN
       If(k.nex > 0, {"C03"})
       \cup If(k.nex = 0 /\ i = k.tinst /\ NotRun(s, tok, e[2]), {"C20", "C08"})
       \cup If(r.st \in {Starting, Up, Stopping} /\ r.chan # k.chan, {"C03", "C18"})
       \cup If(e[6] # 1, {"C03", "C02", "C04"})
       \cup If(s.binds[b].fid # k.fid \/ s.binds[b].st = 5, {"C14", "C02"})
       \cup If(s.binds[b].endAt >= 0 /\ s.binds[b].endAt < k.t0, {"C14"})
       \cup If(k.shape = 1 /\ s.binds[b].ar > 0, {"C15"})
       \cup If(k.st = 1 /\ k.code # SUCCESS /\ ~k.thr /\ ~(k.kind = "s" /\ k.code = TIMEOUT) /\ ~Shutting(s, tok) /\ ~k.frg, {"C03"})
       \cup If(~k.pop, {"C03", "C16"})
       \cup If(k.pop /\ k.enqAt < r.iniAt, {"C17", "C18"})

\* a call that ended without having been executed must not be under way
NotSent(s, tok) ==
  LET k == s.calls[tok] IN If((k.nex > 0 \/ k.enq > 0) /\ ~Shutting(s, tok) /\ ~k.frg, {"C03"})

\* a thread that sends calls for the instance of the call may have become free since then
SenderFreed(s, tok, from, t) ==
  LET i == s.calls[tok].inst
      In(x) == x >= from /\ x <= t
  IN \/ In(s.inst[i].cbusy)
     \/ \E n \in 1..Len(s.calls) \ {tok} :
          LET c == s.calls[n] IN
          c.inst = i /\ (In(c.retAt) \/ In(c.enqAt) \/ ((c.rel \/ c.kind # "c") /\ In(c.t0 + 1000 * c.tmo)))

BadRet(s, e) ==
  LET tok == e[3]  k == s.calls[tok]  code == e[4]  err == e[5] = 1  val == e[6]  b == e[7]  succ == e[9] = 1
      i == k.inst  t == e[2]  el == t - k.t0  tmo == k.tmo * 1000
      boundhere == k.exb > 0
      matched(x) == (k.shape = 0 /\ s.binds[x].ar = 2) \/ (k.shape = 2 /\ s.binds[x].ar = 0) \/ (k.shape = 3 /\ s.binds[x].ar = 1)
      early == el < tmo
      ltx == s.lastlt >= k.t0
      ltt == LastLt(s, k.chan, 0) >= k.t0
      lateOk == ~s.timely \/ el <= tmo + 1000 * s.inst[i].rw + SLACK
  IN
  \* C01: one result each
     If(k.st = 1 \/ (k.rel /\ e[8] = 0), {"C01"})
  \cup If(succ # (code = SUCCESS /\ ~err), {"C15", "C03"})
  \cup If(err /\ e[10] # 0 /\ e[10] # tok, {"C02"})
  \* success
  \cup (IF succ /\ ~k.frg
        THEN If(k.nex # 1 \/ k.exend < 0, {"C03", "C02", "C16"} \cup If(k.nex = 0, {"C15", "C14"}))
             \cup If(k.nex = 1 /\ boundhere /\ s.binds[k.exb].kind = 1, {"C15", "C02"})
             \cup If(k.nex = 1 /\ boundhere /\ s.binds[k.exb].kind = 2 /\ val # -2, {"C02"})
             \cup If(k.nex = 1 /\ boundhere /\ s.binds[k.exb].kind = 0 /\ (val # tok \/ b # k.exb), {"C02", "C04"})
        ELSE {})
  \* delivered, but an error of the callee
  \cup (IF code = SUCCESS /\ ~succ /\ ~k.frg
        THEN If(~err, {"C15"})
             \cup If(k.nex > 0 /\ boundhere /\ s.binds[k.exb].kind # 1, {"C02", "C15"})
             \cup If(k.nex = 0 /\ k.ball /\ ~k.dist /\ k.tinst # 0
                     /\ \A x \in DOMAIN s.binds : (s.binds[x].inst = k.tinst /\ s.binds[x].fid = k.fid /\ s.binds[x].st = 2) => matched(x),
                     {"C14", "C15"} \cup s.prim)
        ELSE {})
  \* not delivered: failures of the callee must be delivered (C15), and whatever must get through gets through
  \cup (IF code = FAILED
        THEN NotSent(s, tok)
             \cup If(MustDeliver(s, tok) /\ ~k.frg, s.prim \cup {"C01"})
             \* nothing but a message that does not fit the queue of the target is refused
             \cup If(Undisturbed(s, tok) /\ ~k.frg /\ ~MaybeHopeless(s, k.chan, k.size) /\ e[8] # 1, {"C19", "C01"})
             \cup If(~err, {"C15"})
             \cup If(k.absent /\ k.ok0 /\ ~k.dist /\ ~k.hol /\ s.timely /\ e[8] # 1 /\ el > 50000, {"C11"})
        ELSE {})
  \cup If(k.absent /\ k.ok0 /\ ~k.hol /\ s.timely /\ code # FAILED, {"C11"})
  \cup (IF code = TIMEOUT
        THEN (IF k.kind = "s" THEN {} ELSE NotSent(s, tok))
             \cup If(early /\ ~ltx /\ ~MaybeHopeless(s, k.chan, k.size) /\ ~Shutting(s, tok) /\ k.ok0 /\ ~k.dist /\ ~s.fault,
                     IF k.kind = "s" THEN {"C10", "C09"} ELSE {"C09"})
             \* nor much later than its timeout: not, when no sender became free about now
             \cup If(k.kind = "c" /\ e[8] = 2 /\ s.timely /\ Undisturbed(s, tok) /\ s.lastlt < k.t0 /\ el > tmo + 1000 * s.inst[i].rw + SLACK
                     /\ s.inst[i].cbs = {} /\ ~SenderFreed(s, tok, t - 1000 * s.inst[i].rw - SLACK, t), {"C09"})
             \* there was room all the time, or since long before the timeout
             \cup If(s.timely /\ ~ltt /\ ~k.hol /\ e[8] # 1 /\ Undisturbed(s, tok) /\ k.enq = 0 /\ k.fit >= 0 /\ ~MaybeHopeless(s, k.chan, k.size)
                     /\ t - Max2(OutsideUntil(s, k.chan, 0, t), k.fit) > NOTICE, {"C09", "C23"})
             \cup If(MustDeliver(s, tok) /\ k.kind = "s" /\ k.nex > 0 /\ k.exend >= 0 /\ t - k.exend > 100000
                     /\ ~ReplyExcused(s, tok) /\ Cardinality(BlockedReplies(s, tok, t)) < Senders, {"C01", "C08"} \cup s.prim)
        ELSE {})
  \cup If(code = TIMEOUT /\ k.nex = 0 /\ k.shape = 0 /\ k.ball /\ ~k.dist /\ ~k.frg /\ NotRun(s, tok, t)
          /\ (\A x \in DOMAIN s.binds : (s.binds[x].inst = k.tinst /\ s.binds[x].fid = k.fid /\ s.binds[x].st = 2) => matched(x)), {"C20", "C08"})
  \cup If(k.kind = "s" /\ ~lateOk, {"C10"})
  \cup If(Hopeless(s, k.chan, k.size) /\ k.ok0 /\ ~k.dist /\ k.tinst # 0 /\ (code = SUCCESS \/ (s.timely /\ ~ltx /\ ~k.hol /\ e[8] # 1 /\ el > 60000)),
          {"C09", "C05"})

BadMk(s, e) ==
  LET i == e[3]  c == e[6] IN
  If(e[5] \in {1, 2, 3} /\ ~(i \in DOMAIN s.inst /\ s.inst[i].st = Starting /\ s.inst[i].chan = c), {"C11"})
  \cup If(e[5] = 2 /\ e[9] # 1, {"C06"})

BadLk(s, e) == If(e[3] \in DOMAIN s.lock /\ s.lock[e[3]].holder >= 0, {"C06"})
BadUl(s, e) ==
  IF e[3] \notin DOMAIN s.lock THEN {}
  ELSE LET l == s.lock[e[3]] IN
       If(l.holder # e[4], {"C06"})
       \cup If(s.timely /\ l.holder = e[4] /\ e[6] # 0 /\ e[2] - l.since > HOLD, {"C09"})

BadLt(s, e) ==
  IF e[6] \notin DOMAIN s.inst \/ e[8] < 0 THEN {}
  ELSE LET w == s.inst[e[6]].rw * 1000 IN
       If(s.timely /\ e[7] + 2000 < w, {"C07"}) \cup If(s.timely /\ e[7] > w + 5000, {"C07"})

BadQ(s, e) ==
  LET t == e[2]  o == e[3]  new == e[5] IN
  IF o \notin DOMAIN s.obj THEN {}
  ELSE
  LET r == s.obj[o]  old == r.seq
      can == \E k \in 0..Len(old) : Len(old) - k <= Len(new) /\ SubSeq(new, 1, Len(old) - k) = SubSeq(old, k + 1, Len(old))
      k == Pops(old, new)
      pushed == SubSeq(new, Len(old) - k + 1, Len(new))
      one(m) ==
        CASE m[1] = 0 -> {"C04"}
          [] m[1] = 1 ->
               IF ~Known(s, m[2]) THEN {"C03"}
               ELSE LET c == s.calls[m[2]] IN
                    If(c.enq > 0, {"C03"})
                    \cup If(m[3] # 1, {"C03", "C04"})
                    \cup If(c.chan # r.chan \/ r.which # 0, {"C03"})
                    \* no more calls than senders were under way, and yet it had to wait although there was room
                    \cup If(s.timely /\ ~c.hol /\ c.enq = 0 /\ c.fit >= 0 /\ t - Max2(OutsideUntil(s, c.chan, 0, t), Max2(c.t0, c.fit)) > NOTICE /\ Undisturbed(s, m[2])
                            /\ LastLt(s, c.chan, 0) < c.t0 /\ ~MaybeHopeless(s, c.chan, c.size), {"C23"})
                    \cup If(c.st = 1 /\ ~c.thr /\ ~c.frg /\ ~(c.kind = "s" /\ c.code = TIMEOUT) /\ ~Shutting(s, m[2]), {"C03"})
                    \cup If(r.retired >= 0 /\ s.ch[r.chan].upAt > r.retired /\ s.ch[r.chan].upAt < c.t0, {"C18"})
          [] m[1] = 2 ->
               IF ~Known(s, m[2]) THEN If(s.inj = 0, {"C02", "C16"})
               ELSE LET c == s.calls[m[2]] IN
                    If(r.which # 1, {"C02"})
                    \cup If(c.renq > 0, {"C01", "C03"})
                    \cup If(m[3] > 0 /\ m[3] # m[2], {"C02"})
                    \cup If(c.enq = 0, {"C02"})
                    \cup If(s.timely /\ s.inj = 0 /\ r.which = 1 /\ c.nex = 1 /\ c.exend >= 0 /\ r.lowAt < 0 /\ t - Max2(OutsideUntil(s, r.chan, 1, t), Max2(c.exend, r.okAt)) > NOTICE
                            /\ Undisturbed(s, m[2]) /\ LastLt(s, r.chan, 1) < c.t0 /\ LastLt(s, c.chan, 0) < c.t0
                            /\ Cardinality(BlockedReplies(s, m[2], t)) < Senders, {"C23"})
                    \cup If(r.retired >= 0 /\ s.ch[r.chan].upAt > r.retired /\ s.ch[r.chan].upAt < c.t0, {"C18"})
          [] OTHER -> {}
      RECURSIVE all(_)
      all(n) == IF n > Len(pushed) THEN {} ELSE one(pushed[n]) \cup all(n + 1)
      held == {l \in DOMAIN s.lock : s.lock[l].chan = r.chan /\ s.lock[l].which = r.which /\ s.lock[l].holder = e[4]}
  IN IF ~can THEN {"C04"}
     ELSE all(1)
          \cup If(pushed # <<>> /\ (Len(new) > r.cap \/ BytesOf(new) > TotalRoom(r)), {"C05", "C19"})
          \cup If(held = {}, {"C06"})

BadQuiet(s, e) ==
  LET open == {n \in Pending(s) : ~s.calls[n].rel /\ s.calls[n].valid /\ s.inst[s.calls[n].inst].st # Dead}
      lost == {n \in open : ~ReplyExcused(s, n)}
      absent == {n \in open : s.calls[n].absent \/ (~s.calls[n].ok0 /\ ~s.calls[n].dist)}
      sync == {n \in open : LET k == s.calls[n] IN k.kind = "s" /\ e[2] > k.t0 + 1000 * k.tmo + 1000 * s.inst[k.inst].rw + SLACK}
  IN If(lost # {}, {"C01"} \cup s.prim)
     \cup If(absent # {}, {"C11", "C01"})
     \cup If(sync # {}, {"C10"})

BadFq(s, e) ==
  LET i == e[3] IN
  IF s.inst[i].st # Up \/ Wedged(s, s.inst[i].chan) THEN {}
  ELSE If(e[6] > 0, {"C08"} \cup s.prim) \cup If(e[7] # 1, {"C06"})

BadEnd(s, e) ==
  If(s.res /\ \E n \in Pending(s) : ~s.calls[n].rel /\ s.inst[s.calls[n].inst].st # Dead, {"C13", "C01"})

BadKill(s, e) ==
  LET p == e[3]
      chans == {s.inst[i].chan : i \in {x \in DOMAIN s.inst : s.inst[x].proc = p}}
      alive == {c \in DOMAIN s.ch : Owner(s, c) # 0 /\ s.inst[Owner(s, c)].proc # p}
  IN If(\E l \in Range(e[4]) \cap DOMAIN s.lock : s.lock[l].chan \in alive, {"KF-C17-lock"})

Stuck(s) ==
  s.prim \cup If(\E i \in DOMAIN s.inst : s.inst[i].st = Stopping, {"C13"})
         \cup If(\E n \in Pending(s) : s.calls[n].kind = "s", {"C10"})

Bad(s, e) ==
  LET n == e[1] IN
  CASE n = "ini1" -> BadIni1(s, e)
    [] n = "uni1" -> BadUni1(s, e)
    [] n = "lft" -> BadLft(s, e)
    [] n = "bnd1" -> BadBnd1(s, e)
    [] n = "nam1" -> BadNam1(s, e)
    [] n = "pk" -> BadPk(s, e)
    [] n = "bst" -> If(e[5] # e[4], {"C01", "C11"})
    [] n = "isd" -> If(e[4] # 1, {"C01"} \cup s.prim)
    [] n = "ret" -> BadRet(s, e)
    [] n = "thr" -> {"C01", "C13", "C15"} \cup s.prim
    [] n = "ex0" -> BadEx0(s, e)
    [] n = "mk" -> BadMk(s, e)
    [] n = "lk" -> BadLk(s, e)
    [] n = "ul" -> BadUl(s, e)
    [] n = "lt" -> BadLt(s, e)
    [] n = "q" -> BadQ(s, e)
    [] n = "rc" -> {"C06"}
    [] n = "race" -> {"C22"} \cup s.prim  \* undefined behaviour voids every promise
    [] n = "kill" -> BadKill(s, e)
    [] n = "fq" -> BadFq(s, e)
    [] n = "quiet" -> BadQuiet(s, e)
    [] n = "res" -> If(e[4] # 0 \/ e[5] # 0, {"C12"})
    [] n = "nm2" -> If(e[3] \in DOMAIN s.ch /\ ~s.ch[e[3]].killed, {"C12"}) \cup If(e[3] \notin DOMAIN s.ch, {"C11", "C12"})
    [] n = "exp" -> If(e[4] # 1, Range(e[3]))
    [] n = "end" -> BadEnd(s, e)
    [] n \in {"crash", "hang", "deadlock", "livelock", "spin", "badsem"} -> Stuck(s)
    [] OTHER -> {}
=============================================================================
