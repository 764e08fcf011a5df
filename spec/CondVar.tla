------------------------------- MODULE CondVar -------------------------------
(* Monitors: a mutex, a condition variable and a flag per index.             *)
(* A wait releases the mutex and starts waiting in one step, is woken by a    *)
(* notification or by its timeout, and reacquires the mutex before it ends.   *)
(* Deadlines are kept in the clock they were given in: the system clock runs  *)
(* at monotonic time + off, and off may jump.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Mons
VARIABLES owner, flag, pend, off, jt, xs
vars == <<owner, flag, pend, off, jt, xs>>
\* slack for waits with a predicate on a clock that can be adjusted
Slack == 100000

Idle == [st |-> "idle", o |-> "", m |-> 0, b |-> 0, dl |-> 0, t0 |-> 0, mo |-> 0, hit |-> FALSE, n |-> "", r |-> ""]
BInit == /\ owner = [m \in Mons |-> 0] /\ flag = [m \in Mons |-> 0] /\ pend = [t \in Threads |-> Idle]
         /\ off = 0 /\ jt = -1 /\ xs = [t \in Threads |-> {}]
Bit(b, k) == (b \div k) % 2 = 1
Timed(p) == Bit(p.b, 1)
Pred(p) == Bit(p.b, 2)
Foreign(p) == Bit(p.b, 4)
Jumps(p) == Bit(p.b, 8)
Rel(p) == Bit(p.b, 16)
Max(a, b) == IF a > b THEN a ELSE b
ClkOff(p) == IF Jumps(p) THEN off ELSE 0
\* the deadline was reached at some moment of the call
Reached(p, now) == Timed(p) /\ (p.hit \/ now + ClkOff(p) >= p.dl)

Call(t, o, m, b, dl, now) ==
  /\ pend[t].st = "idle"
  /\ LET p == [st |-> "call", o |-> o, m |-> m, b |-> b, dl |-> dl, t0 |-> now, mo |-> 0, hit |-> FALSE, n |-> "", r |-> ""] IN
     pend' = [pend EXCEPT ![t] = [p EXCEPT !.mo = ClkOff(p)]]
  /\ UNCHANGED <<owner, flag, off, jt, xs>>
Fin(t, r) == pend' = [pend EXCEPT ![t].st = "done", ![t].r = r]

Lock(t) == /\ pend[t].st = "call" /\ pend[t].o = "lock" /\ owner[pend[t].m] = 0
           /\ owner' = [owner EXCEPT ![pend[t].m] = t] /\ Fin(t, "ok") /\ UNCHANGED <<flag, off, jt, xs>>
Unlock(t) == /\ pend[t].st = "call" /\ pend[t].o = "unlock" /\ owner[pend[t].m] = t
             /\ owner' = [owner EXCEPT ![pend[t].m] = 0] /\ Fin(t, "ok") /\ UNCHANGED <<flag, off, jt, xs>>
\* a wait by a thread that does not own the mutex is refused and changes nothing
WaitBad(t) == /\ pend[t].st = "call" /\ pend[t].o = "wbad" /\ owner[pend[t].m] # t
              /\ Fin(t, "err") /\ UNCHANGED <<owner, flag, off, jt, xs>>
Waiters(m) == {u \in Threads : pend[u].st = "wait" /\ pend[u].m = m}
Wake(u, n, f) == [f EXCEPT ![u].st = "woke", ![u].n = n]
NotifyOne(t) == /\ pend[t].st = "call" /\ pend[t].o = "n1"
                /\ LET W == Waiters(pend[t].m)  p == [pend EXCEPT ![t].st = "done", ![t].r = "ok"] IN
                   IF W = {} THEN pend' = p ELSE \E u \in W : pend' = Wake(u, "n", p)
                /\ UNCHANGED <<owner, flag, off, jt, xs>>
WakeAll(W, f) == [u \in Threads |-> IF u \in W THEN [f[u] EXCEPT !.st = "woke", !.n = "n"] ELSE f[u]]
NotifyAll(t) == /\ pend[t].st = "call" /\ pend[t].o = "nall"
                /\ pend' = WakeAll(Waiters(pend[t].m), [pend EXCEPT ![t].st = "done", ![t].r = "ok"])
                /\ UNCHANGED <<owner, flag, off, jt, xs>>
\* the wait releases the mutex and becomes a waiter atomically
WaitStart(t, now) ==
  /\ pend[t].st = "call" /\ pend[t].o = "wait" /\ owner[pend[t].m] = t
  /\ IF Pred(pend[t]) /\ flag[pend[t].m] > 0 THEN Fin(t, "true") /\ UNCHANGED owner
     ELSE \/ owner' = [owner EXCEPT ![pend[t].m] = 0] /\ pend' = [pend EXCEPT ![t].st = "wait"]
          \/ Pred(pend[t]) /\ Reached(pend[t], now) /\ Fin(t, "false") /\ UNCHANGED owner
  /\ UNCHANGED <<flag, off, jt, xs>>
\* the implementation may look at an adjustable clock whenever it wants, if there is a predicate
TimeoutOk(p, now) == /\ p.st = "wait" /\ Timed(p)
                     /\ \/ Reached(p, now)
                        \/ Foreign(p) /\ Pred(p)
                        \/ Foreign(p) /\ now + p.mo >= p.dl
Timeout(t, now) == /\ TimeoutOk(pend[t], now)
                   /\ pend' = Wake(t, "t", pend) /\ UNCHANGED <<owner, flag, off, jt, xs>>
\* woken: own the mutex again, then look at the predicate or at the clock
Reacquire(t, now) ==
  /\ pend[t].st = "woke" /\ owner[pend[t].m] = 0
  /\ LET p == pend[t]  own == owner' = [owner EXCEPT ![p.m] = t] IN
     IF Pred(p)
     THEN \/ flag[p.m] > 0 /\ own /\ Fin(t, "true")
          \/ flag[p.m] = 0 /\ Reached(p, now) /\ own /\ Fin(t, "false")
          \/ flag[p.m] = 0 /\ (p.n = "n" \/ Foreign(p)) /\ UNCHANGED owner /\ pend' = [pend EXCEPT ![t].st = "wait", ![t].n = ""]
     ELSE /\ own
          /\ \/ p.n = "n" /\ Fin(t, "ok")
             \/ Reached(p, now) /\ Fin(t, "timeout")
             \/ p.n = "t" /\ (~Reached(p, now) \/ (Jumps(p) /\ jt >= p.t0)) /\ Fin(t, "ok")
  /\ UNCHANGED <<flag, off, jt, xs>>
\* notify_all_at_thread_exit: the mutex stays owned by the thread until it has ended
Exit(t) == /\ pend[t].st = "call" /\ pend[t].o = "exit" /\ owner[pend[t].m] = t
           /\ xs' = [xs EXCEPT ![t] = @ \cup {<<pend[t].m, "held">>}] /\ Fin(t, "ok") /\ UNCHANGED <<owner, flag, off, jt>>
TlsDone(t) == /\ pend[t].st = "idle" /\ \A x \in xs[t] : x[2] = "held"
              /\ xs' = [xs EXCEPT ![t] = {<<x[1], "free">> : x \in @}] /\ UNCHANGED <<owner, flag, pend, off, jt>>
ExitRelease(t, m) == /\ <<m, "free">> \in xs[t] /\ owner[m] = t
                     /\ owner' = [owner EXCEPT ![m] = 0]
                     /\ xs' = [xs EXCEPT ![t] = (@ \ {<<m, "free">>}) \cup {<<m, "note">>}] /\ UNCHANGED <<flag, pend, off, jt>>
ExitNotify(t, m) == /\ <<m, "note">> \in xs[t]
                    /\ pend' = WakeAll(Waiters(m), pend)
                    /\ xs' = [xs EXCEPT ![t] = @ \ {<<m, "note">>}] /\ UNCHANGED <<owner, flag, off, jt>>
Set(t, m, v) == owner[m] = t /\ flag' = [flag EXCEPT ![m] = v] /\ UNCHANGED <<owner, pend, off, jt, xs>>
Jump(d, now) == /\ off' = off + d /\ jt' = now
                /\ pend' = [u \in Threads |-> IF pend[u].st # "idle" /\ Jumps(pend[u])
                                              THEN [pend[u] EXCEPT !.mo = Max(@, off + d), !.hit = Reached(pend[u], now)] ELSE pend[u]]
                /\ UNCHANGED <<owner, flag, xs>>

Lin(t, now) == Lock(t) \/ WaitBad(t) \/ Unlock(t) \/ NotifyOne(t) \/ NotifyAll(t) \/ WaitStart(t, now) \/ Timeout(t, now) \/ Reacquire(t, now)
               \/ Exit(t) \/ \E m \in Mons : ExitRelease(t, m) \/ ExitNotify(t, m)
\* a step that has to happen without time passing
Must(t, now) == \/ pend[t].st = "call" /\ (pend[t].o # "lock" \/ owner[pend[t].m] = 0)
                \/ pend[t].st = "woke" /\ owner[pend[t].m] = 0
                \/ pend[t].st = "wait" /\ Timed(pend[t]) /\ Reached(pend[t], now)
                \/ \E x \in xs[t] : x[2] # "held"
Ret(t, o, r) == /\ pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r
                /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<owner, flag, off, jt, xs>>
\* time passes from now to lim while p waits: it may not miss its deadline
InTime(p, now, lim, early) ==
  IF ~Foreign(p) THEN (now < p.dl /\ lim <= p.dl) \/ (early /\ Rel(p))
  ELSE IF ~Pred(p) THEN early \/ (now < p.dl - p.mo /\ lim <= p.dl - p.mo) \/ (Jumps(p) /\ jt >= p.t0)
  ELSE LET at == Max(p.dl - ClkOff(p), Max(IF Jumps(p) THEN jt ELSE 0, p.t0)) IN
       lim <= at + Slack \/ early
Quiet(now, lim, early, end) ==
  \A t \in Threads : /\ pend[t].st # "done"
                     /\ pend[t].st = "call" => pend[t].o = "lock" /\ owner[pend[t].m] # 0
                     /\ pend[t].st = "woke" => owner[pend[t].m] # 0
                     /\ (pend[t].st = "wait" /\ Timed(pend[t])) => ~end /\ InTime(pend[t], now, lim, early)
                     /\ \A x \in xs[t] : x[2] = "held" /\ ~end
=============================================================================
