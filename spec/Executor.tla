------------------------------ MODULE Executor ------------------------------
(* Executors: thread pool, loop, thread, inline and serial executors, and       *)
(* schedulers.  A submitted task is queued, taken by a host (0: a thread of the *)
(* executor; else the thread whose call runs it), started and ended.  Calls     *)
(* made inside of task i belong to thread 10 + i.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Tasks
VARIABLES task, seq, closed, ctm, pend, cuts, dead, gate, entries, gone, off, jt, cfg
vars == <<task, seq, closed, ctm, pend, cuts, dead, gate, entries, gone, off, jt, cfg>>
\* task: st none/new/queued/taken/run/done/cut/drop, h host, g waits for the gate, lo, hi when it is due, at submitted at
\* n: how many tasks were submitted until then; seq: submitted tasks; ctm: when the executor was closed; cuts: workers ended by an interrupted task
\* dead: workers were interrupted by request; gone: destroyed; cfg: k kind, n workers, e entry function, sys clock
Slack == 100000
Ctx == Threads \cup {10 + i : i \in Tasks}
None == [st |-> "none", h |-> 0, g |-> FALSE, lo |-> 0, hi |-> 0, at |-> 0, n |-> 0]
Idle == [st |-> "idle", o |-> "", a |-> 0, b |-> 0, v |-> 0, t0 |-> 0, r |-> "", x |-> 0]
XInit(k, n, e, sys) ==
  /\ task = [i \in Tasks |-> None] /\ seq = 0 /\ closed = FALSE /\ ctm = 0 /\ pend = [t \in Ctx |-> Idle]
  /\ cuts = 0 /\ dead = FALSE /\ gate = FALSE /\ entries = 0 /\ gone = FALSE /\ off = 0 /\ jt = 0
  /\ cfg = [k |-> k, n |-> n, e |-> e, sys |-> sys]
Max(a, b) == IF a > b THEN a ELSE b
Bit(b, k) == (b \div k) % 2 = 1
\* kinds: pool, loop, thread, inline, serial, timed, timedon (timed, run by an executor below)
Timed == cfg.k \in {"timed", "timedon"}
Own == Timed \/ cfg.k \in {"pool", "thread", "serial"}     \* has threads of its own (serial: those of the executor below)
Ordered == cfg.k = "serial"
Fifo == cfg.k \in {"serial", "loop"}
InQ(i) == task[i].st = "queued"
Queue == {i \in Tasks : InQ(i)}
Hosted(h) == {i \in Tasks : task[i].st \in {"taken", "run"} /\ task[i].h = h}
Limit == IF cfg.k = "thread" THEN Cardinality(Tasks) ELSE cfg.n - cuts
FreeWorker == Own /\ Cardinality(Hosted(0)) < Limit /\ (cfg.e => Cardinality(Hosted(0)) < entries - cuts)
Over == {"done", "cut", "drop"}
Execs == {"resch", "yield", "loop", "runq"}
QOff == IF cfg.sys THEN off ELSE 0
Before(i, j) == task[i].n > 0 /\ task[i].n < task[j].n
\* may be taken from the queue next
Next1(i, now) ==
  /\ InQ(i)
  /\ Fifo => \A j \in Queue : ~Before(j, i)
  /\ Ordered => \A j \in Tasks : Before(j, i) => task[j].st \in Over
  /\ Timed => task[i].lo <= now + QOff
  /\ cfg.k = "timed" => \A j \in Queue : ~(task[j].hi < task[i].lo)

Call(t, o, a, b, v, now) ==
  /\ pend[t].st = "idle" /\ ~gone
  /\ t > 10 => task[t - 10].st = "run"
  /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.st = "call", !.o = o, !.a = a, !.b = b, !.v = v, !.t0 = now]]
  /\ task' = IF o = "submit" THEN [task EXCEPT ![a].st = "new"] ELSE task
  /\ UNCHANGED <<seq, closed, ctm, cuts, dead, gate, entries, gone, off, jt, cfg>>
Fin(t, r) == pend' = [pend EXCEPT ![t].st = "done", ![t].r = r]
TF(b) == IF b THEN "true" ELSE "false"
Submit(t, now) ==
  LET p == pend[t]  i == p.a IN
  /\ p.st = "call" /\ p.o = "submit" /\ UNCHANGED <<closed, ctm, cuts, dead, gate, entries, gone, off, jt, cfg>>
  /\ \/ closed /\ Fin(t, "closed") /\ task' = [task EXCEPT ![i].st = "none"] /\ UNCHANGED seq
     \/ Bit(p.b, 1) /\ Fin(t, "exc") /\ task' = [task EXCEPT ![i].st = "none"] /\ UNCHANGED seq
     \/ cfg.k = "thread" /\ ~closed /\ ~Bit(p.b, 1) /\ Fin(t, "noth") /\ task' = [task EXCEPT ![i].st = "none"] /\ UNCHANGED seq
     \/ ~closed /\ ~Bit(p.b, 1) /\ Fin(t, "ok") /\ seq' = seq + 1
        /\ task' = [task EXCEPT ![i] = [st |-> IF cfg.k = "inline" THEN "taken" ELSE "queued", h |-> IF cfg.k = "inline" THEN t ELSE 0, g |-> Bit(p.b, 32),
                                        lo |-> p.v, hi |-> IF Bit(p.b, 16) THEN p.v + (now - p.t0) ELSE p.v, at |-> now, n |-> seq + 1]]
\* a call of t takes a task / a thread of the executor does
Take(h, i, now) ==
  /\ Next1(i, now)
  /\ IF h = 0 THEN FreeWorker
     ELSE /\ cfg.k \in {"pool", "loop"} /\ pend[h].st = "call" /\ pend[h].o \in {"resch", "yield", "loop"} /\ Hosted(h) = {}
          /\ pend[h].o = "resch" => pend[h].x < pend[h].a
          /\ pend[h].o = "yield" => pend[h].x < 1
  /\ task' = [task EXCEPT ![i].st = "taken", ![i].h = h]
  /\ pend' = IF h = 0 THEN pend ELSE [pend EXCEPT ![h].x = @ + 1]
  /\ UNCHANGED <<seq, closed, ctm, cuts, dead, gate, entries, gone, off, jt, cfg>>
\* outcome of a call
Other(t, now) ==
  LET p == pend[t] IN
  /\ p.st = "call" /\ UNCHANGED <<seq, off, jt, cfg, entries, gate, cuts>>
  /\ \/ p.o = "close" /\ closed' = TRUE /\ ctm' = (IF closed THEN ctm ELSE now) /\ Fin(t, "ok") /\ UNCHANGED <<task, dead, gone>>
     \/ p.o = "closed" /\ Fin(t, TF(closed)) /\ UNCHANGED <<task, closed, ctm, dead, gone>>
     \/ p.o = "resch" /\ Hosted(t) = {} /\ p.x = p.a /\ Fin(t, "true") /\ UNCHANGED <<task, closed, ctm, dead, gone>>
     \/ p.o = "resch" /\ Hosted(t) = {} /\ p.x < p.a /\ (Queue = {} \/ cfg.k \notin {"pool", "loop"}) /\ Fin(t, "false") /\ UNCHANGED <<task, closed, ctm, dead, gone>>
     \/ p.o = "yield" /\ Hosted(t) = {} /\ (p.x = 1 \/ Queue = {}) /\ Fin(t, "ok") /\ UNCHANGED <<task, closed, ctm, dead, gone>>
     \/ p.o = "loop" /\ Hosted(t) = {} /\ closed /\ Queue = {} /\ Fin(t, "ok") /\ UNCHANGED <<task, closed, ctm, dead, gone>>
     \* the whole queue at once
     \/ p.o = "runq" /\ p.x = 0 /\ pend' = [pend EXCEPT ![t].x = 1] /\ UNCHANGED <<closed, ctm, dead, gone>>
        /\ task' = [j \in Tasks |-> IF InQ(j) THEN [task[j] EXCEPT !.st = "taken", !.h = t] ELSE task[j]]
     \/ p.o = "runq" /\ p.x = 1 /\ Hosted(t) = {} /\ Fin(t, "ok") /\ UNCHANGED <<task, closed, ctm, dead, gone>>
     \/ p.o \in {"pint", "pjoin"} /\ p.a = (IF p.o = "pint" THEN 0 ELSE 1) /\ ~dead /\ dead' = TRUE /\ UNCHANGED <<task, closed, ctm, gone, pend>>
     \/ p.o = "pint" /\ dead /\ Fin(t, "ok") /\ UNCHANGED <<task, closed, ctm, dead, gone>>
     \* joined: all workers have ended
     \/ p.o = "pjoin" /\ (p.a = 1 => dead) /\ Hosted(0) = {} /\ (dead \/ cuts = cfg.n \/ (closed /\ Queue = {})) /\ Fin(t, "ok") /\ UNCHANGED <<task, closed, ctm, dead, gone>>
     \/ p.o = "destroy" /\ ~closed /\ closed' = TRUE /\ ctm' = now /\ UNCHANGED <<task, dead, gone, pend>>
     \/ p.o = "destroy" /\ closed /\ \A m \in Tasks : task[m].st \notin {"taken", "run"}
        \* what is queued is run unless there is nobody left to do it
        /\ \/ Queue = {} \/ dead \/ cfg.k = "loop" \/ (Own /\ cfg.k # "thread" /\ cuts = cfg.n)
           \/ Timed /\ (cfg.sys \/ \A i \in Queue : task[i].hi > ctm)
        /\ task' = [j \in Tasks |-> IF InQ(j) THEN [task[j] EXCEPT !.st = "drop"] ELSE task[j]]
        /\ Fin(t, "ok") /\ gone' = TRUE /\ UNCHANGED <<closed, ctm, dead>>
Lin(t, now) == Submit(t, now) \/ Other(t, now)
\* ---- observed
Start(h, i) ==
  /\ task[i].st = "taken" /\ task[i].h = h /\ ~gone
  /\ \A j \in Hosted(h) : h # 0 => task[j].st # "run" /\ ~Before(j, i)
  /\ task' = [task EXCEPT ![i].st = "run"]
  /\ UNCHANGED <<seq, closed, ctm, pend, cuts, dead, gate, entries, gone, off, jt, cfg>>
End(h, i, cut) ==
  /\ task[i].st = "run" /\ task[i].h = h /\ pend[10 + i].st = "idle"
  /\ cut => h = 0 /\ (dead \/ \E t \in Ctx : pend[t].st = "call" /\ pend[t].o = "destroy")
  /\ task' = [task EXCEPT ![i].st = IF cut THEN "cut" ELSE "done"]
  /\ cuts' = (IF cut THEN cuts + 1 ELSE cuts)
  /\ UNCHANGED <<seq, closed, ctm, pend, dead, gate, entries, gone, off, jt, cfg>>
Entry == cfg.e /\ entries < cfg.n /\ entries' = entries + 1 /\ UNCHANGED <<task, seq, closed, ctm, pend, cuts, dead, gate, gone, off, jt, cfg>>
Open == gate' = TRUE /\ UNCHANGED <<task, seq, closed, ctm, pend, cuts, dead, entries, gone, off, jt, cfg>>
Jump(d, now) == off' = off + d /\ jt' = now /\ UNCHANGED <<task, seq, closed, ctm, pend, cuts, dead, gate, entries, gone, cfg>>
Ret(t, o, r) ==
  /\ pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r
  /\ (cfg.k = "inline" /\ o = "submit" /\ r = "ok") => task[pend[t].a].st = "done"
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<task, seq, closed, ctm, cuts, dead, gate, entries, gone, off, jt, cfg>>
\* ---- nothing happens any more before time lim
\* sleeps are bounded by lim: only a closed gate keeps a task running
DueIn(i, lim, early) ==
  \/ ~Timed
  \/ IF ~cfg.sys THEN lim > task[i].hi ELSE ~early /\ lim > Max(Max(task[i].hi - off, task[i].at), jt) + Slack
MayStay(t) ==       \* call t has a reason to be where it is
  LET p == pend[t] IN
  \/ p.st = "idle"
  \/ p.st \in {"call", "done"} /\ Hosted(t) # {}
  \/ p.st = "call" /\ p.o = "loop" /\ ~closed /\ Queue = {}
  \/ p.st = "call" /\ p.o \in {"pjoin", "destroy"} /\ (Hosted(0) # {} \/ (p.o = "pjoin" /\ ~closed /\ ~dead))
Quiet(now, lim, early, end) ==
  /\ \A t \in Ctx : MayStay(t)
  /\ \A i \in Tasks :
       /\ task[i].st = "taken" => \E j \in Hosted(task[i].h) \ {i} : task[j].st = "run"
       /\ task[i].st = "run" /\ end => (task[i].g /\ ~gate) \/ pend[10 + i].st # "idle"
       /\ (InQ(i) /\ DueIn(i, lim, early) /\ (Timed => (~closed \/ (~cfg.sys /\ task[i].hi <= ctm)))) =>
            \/ dead \/ gone \/ cfg.k = "loop"
            \/ ~FreeWorker
            \/ Ordered /\ \E j \in Tasks : task[j].st \in {"taken", "run"}
       /\ (InQ(i) /\ end /\ Timed /\ ~closed /\ ~gone) => ~FreeWorker
  /\ (cfg.e /\ ~dead) => entries = cfg.n
=============================================================================
