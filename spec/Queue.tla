-------------------------------- MODULE Queue --------------------------------
(* Synchronized queues: unbounded and bounded FIFO queues, priority queues     *)
(* and timed queues.  Every operation takes effect in one step (a timed pull   *)
(* that fails may look at the elements before it looks at the clock).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads
VARIABLES q, closed, pend, req, off, jt, cfg
vars == <<q, closed, pend, req, off, jt, cfg>>
\* q: elements [id, p priority, lo, hi bounds of the moment it is due on the queue's clock, at: time of insertion]
\* req: threads that were asked to stop (interruption)
\* cfg: k kind, cap capacity, sys: the queue's clock is the system clock
Slack == 100000
Idle == [st |-> "idle", o |-> "", a |-> 0, b |-> 0, v |-> 0, t0 |-> 0, mo |-> 0, hit |-> FALSE, r |-> "", x |-> 0]
QInit(k, cap, sys) == /\ q = <<>> /\ closed = FALSE /\ pend = [t \in Threads |-> Idle] /\ req = {}
                      /\ off = 0 /\ jt = -1 /\ cfg = [k |-> k, cap |-> cap, sys |-> sys]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Bit(b, k) == (b \div k) % 2 = 1
\* form of a pull (b): 1 has a deadline (v), 4 polled clock, 8 adjustable clock, 16 relative, 128 "no" instead of a reason
\* form of a push (b): 16 relative (v is the least due time), 64 copying the element throws, 128 as above
PushOps == {"push", "tpush", "nbpush"}
PullOps == {"pull", "tpull", "nbpull", "wpull"}
Timed(p) == p.o = "wpull"
Foreign(p) == Timed(p) /\ Bit(p.b, 4)
Jumps(p) == Timed(p) /\ Bit(p.b, 8)
Rel(p) == Bit(p.b, 16)
ClkOff(p) == IF Jumps(p) THEN off ELSE 0
QOff == IF cfg.sys THEN off ELSE 0
Reached(p, now) == Timed(p) /\ (p.hit \/ now + ClkOff(p) >= p.v)
Full == cfg.k = "bounded" /\ Len(q) >= cfg.cap
\* elements that may be taken / whether one has to be taken now
Pick(now) ==
  IF q = <<>> THEN {}
  ELSE CASE cfg.k = "prio" -> {i \in DOMAIN q : \A j \in DOMAIN q : q[j].p <= q[i].p}
         [] cfg.k = "timed" -> {i \in DOMAIN q : q[i].lo <= now + QOff /\ \A j \in DOMAIN q : ~(q[j].hi < q[i].lo)}
         [] OTHER -> {1}
Nothing(now) == IF cfg.k = "timed" THEN \A i \in DOMAIN q : q[i].hi > now + QOff ELSE q = <<>>
Without(i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

Call(t, o, a, b, v, now) ==
  /\ pend[t].st = "idle"
  /\ LET p == [Idle EXCEPT !.st = "call", !.o = o, !.a = a, !.b = b, !.v = v, !.t0 = now] IN pend' = [pend EXCEPT ![t] = [p EXCEPT !.mo = ClkOff(p)]]
  /\ UNCHANGED <<q, closed, req, off, jt, cfg>>
Res(t, r, x) == pend' = [pend EXCEPT ![t].st = "done", ![t].r = r, ![t].x = x]
Fin(t, r) == Res(t, r, 0)
\* the lock of the queue may be in use
Busy(t) == \E u \in Threads \ {t} : pend[u].st # "idle"
Why(p, r) == IF Bit(p.b, 128) THEN "no" ELSE r
\* due time of an element that is pushed now
Lo(p) == p.v
Hi(p, now) == IF Rel(p) THEN p.v + (now - p.t0) ELSE p.v
Push(t, now) ==
  LET p == pend[t] IN
  /\ p.st = "call" /\ p.o \in PushOps
  /\ \/ closed /\ Fin(t, "closed") /\ UNCHANGED <<q, req>>
     \/ ~closed /\ Full /\ p.o # "push" /\ Fin(t, Why(p, "full")) /\ UNCHANGED <<q, req>>
     \/ (~closed \/ cfg.k = "timed") /\ ~Full /\ Bit(p.b, 64) /\ Fin(t, "exc") /\ UNCHANGED <<q, req>>
     \/ ~closed /\ ~Full /\ ~Bit(p.b, 64) /\ Fin(t, "ok") /\ UNCHANGED req
        /\ q' = Append(q, IF cfg.k = "timed" THEN [id |-> p.a, p |-> 0, lo |-> Lo(p), hi |-> Hi(p, now), at |-> now]
                          ELSE [id |-> p.a, p |-> p.v, lo |-> 0, hi |-> 0, at |-> 0])
     \/ p.o = "nbpush" /\ Busy(t) /\ Fin(t, Why(p, "busy")) /\ UNCHANGED <<q, req>>
     \/ p.o = "push" /\ cfg.k = "bounded" /\ t \in req /\ req' = req \ {t} /\ Fin(t, "intr") /\ UNCHANGED q
  /\ UNCHANGED <<closed, off, jt, cfg>>
Pull(t, now) ==
  LET p == pend[t] IN
  /\ p.st = "call" /\ p.o \in PullOps
  /\ \/ \E i \in Pick(now) : q' = Without(i) /\ Res(t, "ok", q[i].id) /\ UNCHANGED req
     \/ Nothing(now) /\ closed /\ Fin(t, "closed") /\ UNCHANGED <<q, req>>
     \/ Nothing(now) /\ ~closed /\ p.o \in {"tpull", "nbpull"} /\ Fin(t, Why(p, IF q = <<>> THEN "empty" ELSE "notready")) /\ UNCHANGED <<q, req>>
     \/ Nothing(now) /\ ~closed /\ p.o = "wpull" /\ UNCHANGED <<q, req>>
        /\ \/ Reached(p, now) /\ Fin(t, IF q = <<>> THEN "timeout" ELSE "notready")
           \/ cfg.k = "timed" /\ q # <<>> /\ ~Reached(p, now) /\ pend' = [pend EXCEPT ![t].st = "miss"]
     \/ p.o = "nbpull" /\ Busy(t) /\ Fin(t, Why(p, "busy")) /\ UNCHANGED <<q, req>>
     \/ p.o \in {"pull", "wpull"} /\ t \in req /\ req' = req \ {t} /\ Fin(t, "intr") /\ UNCHANGED q
  /\ UNCHANGED <<closed, off, jt, cfg>>
\* no element was due when it looked
Missed(t, now) ==
  /\ pend[t].st = "miss" /\ UNCHANGED <<q, closed, req, off, jt, cfg>>
  /\ \/ Reached(pend[t], now) /\ q # <<>> /\ Fin(t, "notready")
     \/ ~Reached(pend[t], now) /\ pend' = [pend EXCEPT ![t].st = "call"]
Code(s) == IF s = <<>> THEN 0 ELSE LET RECURSIVE c(_) c(i) == IF i > Len(s) THEN 0 ELSE s[i].id + 64 * c(i + 1) IN c(1)
TF(b) == IF b THEN "true" ELSE "false"
Other(t) ==
  LET p == pend[t] IN
  /\ p.st = "call" /\ UNCHANGED <<off, jt, cfg>>
  /\ \/ p.o = "close" /\ closed' = TRUE /\ Fin(t, "ok") /\ UNCHANGED <<q, req>>
     \/ p.o = "size" /\ Res(t, "ok", Len(q)) /\ UNCHANGED <<q, closed, req>>
     \/ p.o = "cap" /\ Res(t, "ok", cfg.cap) /\ UNCHANGED <<q, closed, req>>
     \/ p.o = "empty" /\ Fin(t, TF(q = <<>>)) /\ UNCHANGED <<q, closed, req>>
     \/ p.o = "full" /\ Fin(t, TF(Full)) /\ UNCHANGED <<q, closed, req>>
     \/ p.o = "closed" /\ Fin(t, TF(closed)) /\ UNCHANGED <<q, closed, req>>
     \/ p.o = "int" /\ req' = req \cup {p.a} /\ Fin(t, "ok") /\ UNCHANGED <<q, closed>>
     \/ p.o = "drain" /\ q' = <<>> /\ Res(t, "ok", Code(q)) /\ UNCHANGED <<closed, req>>
Lin(t, now) == Push(t, now) \/ Pull(t, now) \/ Missed(t, now) \/ Other(t)
Jump(d, now) == /\ off' = off + d /\ jt' = now
                /\ pend' = [u \in Threads |-> IF pend[u].st # "idle" /\ Jumps(pend[u])
                                              THEN [pend[u] EXCEPT !.mo = Max(@, off + d), !.hit = Reached(pend[u], now)] ELSE pend[u]]
                /\ UNCHANGED <<q, closed, req, cfg>>
Ret(t, o, r, x) == /\ pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r /\ pend[t].x = x
                   /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<q, closed, req, off, jt, cfg>>
\* a call that has to stay where it is until time passes or another thread acts
Blocked(t, now) ==
  LET p == pend[t] IN
  \/ p.st = "call" /\ p.o = "push" /\ ~closed /\ Full /\ t \notin req
  \/ p.st = "call" /\ p.o \in {"pull", "wpull"} /\ ~closed /\ (IF cfg.k = "timed" /\ cfg.sys THEN TRUE ELSE Nothing(now)) /\ t \notin req
InTime(p, now, lim, early) ==
  IF ~Foreign(p) THEN (now < p.v /\ lim <= p.v) \/ (early /\ Rel(p))
  ELSE LET at == Max(p.v - ClkOff(p), Max(IF Jumps(p) THEN jt ELSE 0, p.t0)) IN lim <= at + Slack \/ early
\* a waiting consumer of a timed queue takes an element when it is due
DueInTime(p, now, lim, early) ==
  \A i \in DOMAIN q :
    IF ~cfg.sys THEN lim <= q[i].hi
    ELSE early \/ lim <= Max(Max(q[i].hi - off, q[i].at), Max(jt, p.t0)) + Slack
Quiet(now, lim, early, end) ==
  \A t \in Threads :
    LET p == pend[t] IN
    p.st # "idle" => /\ Blocked(t, now)
                     /\ Timed(p) => ~end /\ InTime(p, now, lim, early)
                     /\ (cfg.k = "timed" /\ p.o \in {"pull", "wpull"}) => (end => q = <<>>) /\ DueInTime(p, now, lim, early)
=============================================================================
