------------------------------- MODULE WaitCb -------------------------------
(* Wait callbacks.  A source (a promise or task) may have a callback.  A wait *)
(* for its result that finds no result calls the callback current then, once, *)
(* in the waiting thread and before it blocks; then it waits for the result   *)
(* as usual.  A wait for several results does so for one after the other.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads
\* tasks: which sources are tasks (they become ready some time after they were started)
Src == {1, 2}
Ctx == Threads \cup {10 + t : t \in Threads}
VARIABLES ready, started, cb, pend, tasks
vars == <<ready, started, cb, pend, tasks>>
Slack == 100000
\* todo: the sources still to look at; of: those to wait for; k: the callback to be called
Idle == [st |-> "idle", o |-> "", s |-> 0, k |-> 0, todo |-> <<>>, of |-> {}, tm |-> FALSE, dl |-> 0, t0 |-> 0, r |-> ""]
WInit(k) == tasks = k /\ ready = [s \in Src |-> FALSE] /\ started = [s \in Src |-> FALSE] /\ cb = [s \in Src |-> 0] /\ pend = [c \in Ctx |-> Idle]
Order(o, s) == CASE o = "w" -> <<s>> [] o \in {"any", "all"} -> (IF s = 0 THEN <<1, 2>> ELSE <<2, 1>>) [] OTHER -> <<>>
Waits == {"w", "any", "all"}
InCb(t) == pend[t].st = "cb"
Call(c, o, s, k, dl, now) ==
  /\ pend[c].st = "idle" /\ (c > 10 => InCb(c - 10) /\ o \notin Waits)
  /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.st = "call", !.o = o, !.s = s, !.k = IF o = "scb" THEN k ELSE 0, !.tm = o = "w" /\ k = 1, !.dl = dl, !.t0 = now,
                                              !.todo = Order(o, s), !.of = {x \in Src : \E i \in 1..Len(Order(o, s)) : Order(o, s)[i] = x}]]
  /\ UNCHANGED <<ready, started, cb, tasks>>
Done(f, c, r) == [f EXCEPT ![c].st = "done", ![c].r = r]
P(c, o) == pend[c].st = "call" /\ pend[c].o = o
SetCb(c) == P(c, "scb") /\ cb' = [cb EXCEPT ![pend[c].s] = pend[c].k] /\ pend' = Done(pend, c, "ok") /\ UNCHANGED <<ready, started, tasks>>
Begin(c) == LET s == pend[c].s IN
  /\ P(c, "set") /\ UNCHANGED <<cb, tasks>>
  /\ IF started[s] THEN pend' = Done(pend, c, "already") /\ UNCHANGED <<ready, started>>
     ELSE /\ started' = [started EXCEPT ![s] = TRUE]
          /\ IF s \in tasks THEN pend' = [pend EXCEPT ![c].st = "runs"] /\ UNCHANGED ready
             ELSE pend' = Done(pend, c, "ok") /\ ready' = [ready EXCEPT ![s] = TRUE]
Finish(c) == pend[c].st = "runs" /\ ready' = [ready EXCEPT ![pend[c].s] = TRUE] /\ pend' = Done(pend, c, "ok") /\ UNCHANGED <<started, cb, tasks>>
Ask(c) == P(c, "rdy") /\ pend' = Done(pend, c, IF ready[pend[c].s] THEN "true" ELSE "false") /\ UNCHANGED <<ready, started, cb, tasks>>
\* the next source is looked at: its callback is due, or there is nothing to do
Look(c) == LET p == pend[c] s == p.todo[1] IN
  /\ p.st = "call" /\ p.o \in Waits /\ p.todo # <<>> /\ UNCHANGED <<ready, started, cb, tasks>>
  /\ pend' = IF ~ready[s] /\ cb[s] # 0 THEN [pend EXCEPT ![c].st = "due", ![c].s = s, ![c].k = cb[s]]
             ELSE [pend EXCEPT ![c].st = IF p.o = "all" THEN "blk" ELSE "call", ![c].todo = Tail(@), ![c].s = s]
CbStart(c, s, k) == pend[c].st = "due" /\ pend[c].s = s /\ pend[c].k = k /\ pend' = [pend EXCEPT ![c].st = "cb"] /\ UNCHANGED <<ready, started, cb, tasks>>
CbEnd(c, thrown) == /\ pend[c].st = "cb" /\ pend[10 + c].st = "idle" /\ UNCHANGED <<ready, started, cb, tasks>>
                    /\ pend' = IF thrown THEN Done(pend, c, "thrown") ELSE [pend EXCEPT ![c].st = IF pend[c].o = "all" THEN "blk" ELSE "call", ![c].todo = Tail(@)]
\* "all" waits for one after the other
Next1(c) == pend[c].st = "blk" /\ ready[pend[c].s] /\ UNCHANGED <<ready, started, cb, tasks>>
            /\ pend' = IF pend[c].todo = <<>> THEN Done(pend, c, "ok") ELSE [pend EXCEPT ![c].st = "call"]
Got(c) == LET p == pend[c] IN
  /\ p.st = "call" /\ p.o \in {"w", "any"} /\ p.todo = <<>> /\ UNCHANGED <<ready, started, cb, tasks>>
  /\ \E s \in p.of : ready[s] /\ pend' = Done(pend, c, IF p.o = "w" THEN "ok" ELSE IF s = 1 THEN "1" ELSE "2")
Timeout(c, now) == LET p == pend[c] IN
  /\ p.st = "call" /\ p.o = "w" /\ p.todo = <<>> /\ p.tm /\ now >= p.dl /\ ~ready[p.s] /\ pend' = Done(pend, c, "timeout") /\ UNCHANGED <<ready, started, cb, tasks>>
Lin(c, now) == SetCb(c) \/ Begin(c) \/ Finish(c) \/ Ask(c) \/ Look(c) \/ Next1(c) \/ Got(c) \/ Timeout(c, now)
Ret(c, o, r) == pend[c].st = "done" /\ pend[c].o = o /\ pend[c].r = r /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<ready, started, cb, tasks>>
Blocked(c) == LET p == pend[c] IN \/ p.st = "call" /\ p.o \in {"w", "any"} /\ p.todo = <<>> /\ \A s \in p.of : ~ready[s]
                                  \/ p.st = "blk" /\ ~ready[p.s]
Max(a, b) == IF a > b THEN a ELSE b
\* a callback may sleep (then its thread is in it)
Quiet(lim, early, end) ==
  \A c \in Ctx : \/ pend[c].st = "idle" \/ (pend[c].st = "cb" /\ ~end)
                 \/ (Blocked(c) /\ (pend[c].tm => ~end /\ (early \/ lim <= Max(pend[c].dl, pend[c].t0) + Slack)))
=============================================================================
