------------------------------- MODULE Region -------------------------------
(* Task regions.  A region has a body, which may run tasks, and ends only     *)
(* when all of its tasks have ended.  Once one of them has failed the region  *)
(* is cancelled: the body can neither run tasks nor wait any more.  What body *)
(* and tasks threw is collected and reported once, when the region ends.      *)
(* Contexts are threads and tasks (a task may have a region of its own).      *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Tasks
Ctx == Threads \cup {10 + k : k \in Tasks}
VARIABLES reg, task, pend
vars == <<reg, task, pend>>
\* on: "off", "body" (its function runs), "join" (its function has returned); exs: what its function threw
\* (exceptions are counted: the sum of 4^(k-1) over the exceptions k)
Off == [on |-> "off", canc |-> FALSE, exs |-> 0]
NewTask == [st |-> "none", c |-> 0, exs |-> 0]
Idle == [st |-> "idle", o |-> "", k |-> 0, r |-> "", v |-> 0]
RInit == reg = [c \in Ctx |-> Off] /\ task = [k \in Tasks |-> NewTask] /\ pend = [c \in Ctx |-> Idle]
Mine(c) == {k \in Tasks : task[k].c = c /\ task[k].st # "new"}
Gone(c) == \A k \in Mine(c) : task[k].st = "done"
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN task[k].exs + Sum(S \ {k})
Done(c, r, v) == [pend EXCEPT ![c].st = "done", ![c].r = r, ![c].v = v]
Enter(c) == /\ pend[c].st = "idle" /\ reg[c].on = "off" /\ (c > 10 => task[c - 10].st = "run")
            /\ reg' = [reg EXCEPT ![c] = [Off EXCEPT !.on = "body"]]
            /\ task' = [k \in Tasks |-> IF task[k].c = c THEN [task[k] EXCEPT !.c = 0] ELSE task[k]]     \* (those of an earlier region)
            /\ UNCHANGED pend
CallRun(c, k) == /\ pend[c].st = "idle" /\ reg[c].on = "body" /\ task[k].st = "none"
                 /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.st = "call", !.o = "run", !.k = k]]
                 /\ task' = [task EXCEPT ![k].st = "new"] /\ UNCHANGED reg
CallWait(c) == /\ pend[c].st = "idle" /\ reg[c].on = "body" /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.st = "call", !.o = "wait"]] /\ UNCHANGED <<reg, task>>
\* the function returns or throws
Leave(c, v) == /\ pend[c].st = "idle" /\ reg[c].on = "body" /\ reg' = [reg EXCEPT ![c].on = "join", ![c].exs = v]
               /\ pend' = [pend EXCEPT ![c] = [Idle EXCEPT !.st = "call", !.o = "reg"]] /\ UNCHANGED task
LinRun(c) == LET p == pend[c] IN
  /\ p.st = "call" /\ p.o = "run" /\ UNCHANGED reg
  /\ IF reg[c].canc THEN pend' = Done(c, "canceled", 0) /\ UNCHANGED task
     ELSE pend' = Done(c, "ok", 0) /\ task' = [task EXCEPT ![p.k] = [NewTask EXCEPT !.st = "queued", !.c = c]]
\* a wait is refused if the region is cancelled when it begins, or when it ends
LinWait(c) ==
  /\ pend[c].o = "wait" /\ UNCHANGED <<reg, task>>
  /\ \/ pend[c].st = "call" /\ pend' = IF reg[c].canc THEN Done(c, "canceled", 0) ELSE [pend EXCEPT ![c].st = "waiting"]
     \/ pend[c].st = "waiting" /\ Gone(c) /\ pend' = Done(c, IF reg[c].canc THEN "canceled" ELSE "ok", 0)
LinReg(c) == LET v == reg[c].exs + Sum(Mine(c)) IN
  /\ pend[c].st = "call" /\ pend[c].o = "reg" /\ Gone(c) /\ UNCHANGED task
  /\ pend' = Done(c, IF v = 0 THEN "ok" ELSE "list", v)
  /\ reg' = [reg EXCEPT ![c] = Off]
Start(k) == /\ task[k].st = "queued" /\ task' = [task EXCEPT ![k].st = "run"] /\ UNCHANGED <<reg, pend>>
\* fails: whether it throws
End(k, fails, v) == /\ task[k].st = "run" /\ reg[10 + k].on = "off" /\ task' = [task EXCEPT ![k].st = IF fails THEN "failed" ELSE "ended", ![k].exs = v] /\ UNCHANGED <<reg, pend>>
Settle(k) == /\ task[k].st \in {"failed", "ended"}
             /\ reg' = IF task[k].st = "failed" THEN [reg EXCEPT ![task[k].c].canc = TRUE] ELSE reg
             /\ task' = [task EXCEPT ![k].st = "done"] /\ UNCHANGED pend
Lin(c) == LinRun(c) \/ LinWait(c) \/ LinReg(c)
Ret(c, o, r, v) == pend[c].st = "done" /\ pend[c].o = o /\ pend[c].r = r /\ pend[c].v = v /\ pend' = [pend EXCEPT ![c] = Idle] /\ UNCHANGED <<reg, task>>
\* nothing can go on without time: whoever waits, waits for a task that has not ended, tasks that were accepted have
\* started unless all workers (of which there are n) are busy
Quiet(n, end) ==
  /\ \A c \in Ctx : \/ pend[c].st = "idle"
                   \/ (pend[c].st \in {"call", "waiting"} /\ ~end /\ ~ENABLED Lin(c))
                   \/ (pend[c].st = "done" /\ pend[c].o = "run" /\ task[pend[c].k].st = "run")     \* (an inline executor)
  /\ \A k \in Tasks : task[k].st \notin {"failed", "ended"} /\ (end => task[k].st \notin {"queued", "run"})
  /\ (\E k \in Tasks : task[k].st = "queued") => Cardinality({k \in Tasks : task[k].st = "run"}) >= n
=============================================================================
