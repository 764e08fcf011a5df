----------------------------- MODULE ExecutorMC -----------------------------
(* Exhaustive exploration of Executor with arbitrary clients, and generation of *)
(* test histories that cover the transitions of its quiescent state graph.      *)
EXTENDS Executor, Json
CONSTANTS Kind, N, EntryFn, Ops, Nested, MaxOps, MaxNow, Depth
VARIABLES now, left, nid, hist
all == <<vars, now, left, nid, hist>>
Init == XInit(Kind, N, EntryFn, FALSE) /\ now = 0 /\ left = [t \in Ctx |-> IF t \in Threads THEN MaxOps ELSE 1] /\ nid = 0 /\ hist = <<>>
\* ops: submit, gsubmit (waits for the gate), isubmit (can be interrupted), xsubmit (storing it throws), resch, resch2 ...
Base(o) == CASE o \in {"submit", "gsubmit", "isubmit", "xsubmit"} -> "submit" [] o = "resch2" -> "resch" [] OTHER -> o
C(a, b, v, d) == [a |-> a, b |-> b, v |-> v, d |-> d]
Due == IF Timed THEN {0, 1} ELSE {0}
Bd(o) == CASE o = "gsubmit" -> 32 [] o = "xsubmit" -> 1 [] o = "isubmit" -> 64 [] OTHER -> 0
Cands(o) ==
  CASE Base(o) = "submit" -> {C(nid + 1, Bd(o) + (IF Timed /\ x > 0 THEN 16 ELSE 0), IF Timed THEN now + x ELSE 0, x) : x \in Due}
    [] o = "resch" -> {C(1, 0, 0, 0)} [] o = "resch2" -> {C(2, 0, 0, 0)}
    [] OTHER -> {C(0, 0, 0, 0)}
Others(t) == \A u \in Ctx \ {t} : pend[u].st = "idle" \/ u > 10
DoCall(t, o, x) ==
  /\ Base(o) = "submit" => x.a \in Tasks
  /\ o = "destroy" => t \in Threads /\ \A u \in Ctx : pend[u].st = "idle"
  /\ (\E u \in Ctx : pend[u].st # "idle" /\ pend[u].o = "destroy") => t > 10
  /\ Call(t, Base(o), x.a, x.b, x.v, now) /\ nid' = IF Base(o) = "submit" THEN x.a ELSE nid
Step ==
  \/ \E t \in Ctx : Lin(t, now) \/ (pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r))
  \/ \E h \in Ctx \cup {0}, i \in Tasks : Take(h, i, now)
  \/ \E i \in Tasks : Start(task[i].h, i) \/ ((task[i].g => gate) /\ End(task[i].h, i, FALSE)) \/ ("isubmit" \in Ops /\ Kind = "pool" /\ End(task[i].h, i, TRUE))
  \/ Entry
Quick == Step /\ UNCHANGED <<now, left, nid, hist>>
Next ==
  \/ \E t \in Ctx : left[t] > 0 /\ (\E o \in (IF t > 10 THEN Nested ELSE Ops) : \E x \in Cands(o) : DoCall(t, o, x)) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<now, hist>>
  \/ Quick
  \/ ~gate /\ Open /\ UNCHANGED <<now, left, nid, hist>>
  \/ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, left, nid, hist>>
\* ---- properties
Ran == {"run", "done", "cut"}
\* a task that was accepted is somewhere, a task that was not is nowhere, and it goes through its life once
Rank(s) == CASE s = "none" -> 0 [] s = "new" -> 1 [] s = "queued" -> 2 [] s = "taken" -> 3 [] s = "run" -> 4 [] OTHER -> 5
Once == [][\A i \in Tasks : \/ Rank(task'[i].st) >= Rank(task[i].st)
                            \/ task[i].st = "new" /\ task'[i].st = "none" /\ seq' = seq]_all
Accepted == /\ \A i \in Tasks : (task[i].st \in {"none", "new"}) <=> task[i].n = 0
            /\ {task[i].n : i \in Tasks} \ {0} = 1..seq /\ Cardinality({i \in Tasks : task[i].n > 0}) = seq
NoneAfterClose == [][closed => seq' = seq]_all
Refused == [][\A t \in Ctx : pend[t].st = "call" /\ pend[t].o = "submit" /\ pend'[t].st = "done" /\ pend'[t].r # "ok" => seq' = seq /\ (pend'[t].r = "closed" => closed)]_all
\* the executor does not end before what it runs; what it did not run had nobody to run it
Ended == gone => \A i \in Tasks : task[i].st \in Over \cup {"none"}
Dropped == \A i \in Tasks : task[i].st = "drop" => gone /\ (dead \/ Kind = "loop" \/ cuts = N \/ (Timed /\ task[i].hi > ctm))
Serial == Kind = "serial" => /\ Cardinality({i \in Tasks : task[i].st = "run"}) <= 1
                             /\ \A i, j \in Tasks : Before(i, j) /\ task[j].st \in Ran => task[i].st \in {"done", "cut"}
Workers == Cardinality(Hosted(0)) + cuts <= (IF Kind = "thread" THEN Cardinality(Tasks) ELSE N)
EntryFirst == EntryFn => \A i \in Tasks : task[i].st \in Ran /\ task[i].h = 0 => entries > 0
Inline == [][\A t \in Ctx : Kind = "inline" /\ pend[t].st = "done" /\ pend[t].o = "submit" /\ pend[t].r = "ok" /\ pend'[t].st = "idle" => task[pend[t].a].st = "done"]_all
NotEarly == [][\A i \in Tasks : task[i].st = "queued" /\ task'[i].st = "taken" => now >= task[i].lo]_all
\* one call of try_executing_one executes at most one task and says so
One == [][\A t \in Ctx : pend[t].st = "call" /\ pend[t].o = "resch" /\ pend'[t].st = "done" =>
            /\ (pend'[t].r = "true") <=> (pend[t].x = pend[t].a)
            /\ (pend'[t].r = "false" /\ Kind \in {"pool", "loop"}) => Queue = {}]_all
\* whatever state is reached by these calls, a call that stays has a reason (used to check Quiet itself)
Fair == /\ WF_all(Quick) /\ \A t \in Ctx : WF_all(Lin(t, now) /\ UNCHANGED <<now, left, nid, hist>>)
        /\ \A i \in Tasks : WF_all((Start(task[i].h, i) \/ ((task[i].g => gate) /\ End(task[i].h, i, FALSE))) /\ UNCHANGED <<now, left, nid, hist>>)
        /\ \A i \in Tasks : SF_all(Take(0, i, now) /\ UNCHANGED <<now, left, nid, hist>>)
        /\ WF_all(Entry /\ UNCHANGED <<now, left, nid, hist>>)
        /\ WF_all(~gate /\ Open /\ UNCHANGED <<now, left, nid, hist>>)
        /\ WF_all(now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, left, nid, hist>>)
FairSpec == Init /\ [][Next]_all /\ Fair
\* an executor with threads of its own runs what it accepted
Live == \A i \in Tasks : [](task[i].st = "queued" /\ Own /\ task[i].hi <= MaxNow => <>(task[i].st \in Over \/ dead \/ cuts = N))
\* ---- generation: one call at a time, then everything that can happen happens
Settled == ~ENABLED Step
Log(h) == hist' = Append(hist, h)
Late == \E i \in Queue : task[i].hi > now
GNext == \/ ~Settled /\ Step /\ UNCHANGED <<now, left, nid, hist>>
         \/ Settled /\ ~gone /\ (\E t \in Threads, o \in Ops : o # "destroy" /\ \E x \in Cands(o) : DoCall(t, o, x) /\ Log(<<t, o, x.d, 0>>)) /\ UNCHANGED <<now, left>>
         \/ Settled /\ ~gate /\ (\E i \in Tasks : task[i].g) /\ Open /\ (\E t \in Threads : pend[t].st = "idle" /\ Log(<<t, "open", 0, 0>>)) /\ UNCHANGED <<now, left, nid>>
         \/ Settled /\ now < MaxNow /\ Late /\ now' = now + 1 /\ Log(<<0, "", 0, 0>>) /\ UNCHANGED <<vars, left, nid>>
GView == <<[i \in Tasks |-> [task[i] EXCEPT !.at = 0]], closed, [t \in Ctx |-> [pend[t] EXCEPT !.t0 = 0]], gate, dead, now>>
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
