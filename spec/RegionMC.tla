------------------------------ MODULE RegionMC ------------------------------
EXTENDS Region, Sequences, Json
CONSTANTS MaxRuns, MaxWaits, NestedTasks, Depth
VARIABLES n, w, told, body, hist
\* told[k]: how often the exception of task k was reported by the region it was run in; body[c]: what the body of c's region threw
aux == <<n, w, told, body, hist>>
all == <<vars, aux>>
Pow(k) == 4 ^ (k - 1)
Cnt(v, k) == (v \div Pow(k)) % 4
Init == RInit /\ n = 0 /\ w = 0 /\ told = [k \in Tasks |-> 0] /\ body = [c \in Ctx |-> 0] /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
Own(c) == IF c > 10 THEN c - 10 ELSE 9
Next ==
  \/ \E c \in Threads \cup {10 + k : k \in NestedTasks} : Enter(c) /\ n < MaxRuns /\ UNCHANGED <<n, w, told, body>> /\ Log(<<c, "reg", 0>>)
  \/ \E c \in Ctx, k \in Tasks : n < MaxRuns /\ (\A j \in 1..k - 1 : task[j].st # "none") /\ CallRun(c, k) /\ n' = n + 1 /\ UNCHANGED <<w, told, body>> /\ Log(<<c, "run", k>>)
  \/ \E c \in Ctx : w < MaxWaits /\ CallWait(c) /\ w' = w + 1 /\ UNCHANGED <<n, told, body>> /\ Log(<<c, "wait", 0>>)
  \/ \E c \in Ctx, v \in {0, 1} : Leave(c, v * (IF c > 10 THEN 0 ELSE Pow(9))) /\ body' = [body EXCEPT ![c] = v] /\ UNCHANGED <<n, w, told>> /\ Log(<<c, IF v = 1 THEN "thr" ELSE "end", 0>>)
  \/ \E c \in Ctx : Lin(c) /\ UNCHANGED aux
  \/ \E c \in Ctx : pend[c].st = "done" /\ Ret(c, pend[c].o, pend[c].r, pend[c].v) /\ UNCHANGED <<n, w, body, hist>>
                    /\ told' = IF pend[c].o = "reg" /\ c <= 10 THEN [k \in Tasks |-> told[k] + Cnt(pend[c].v, k)] ELSE told
  \/ \E k \in Tasks : (Start(k) \/ Settle(k)) /\ UNCHANGED aux
  \/ \E k \in Tasks : (End(k, FALSE, 0) \/ End(k, TRUE, Pow(k)) \/ End(k, TRUE, 0)) /\ UNCHANGED aux
View == <<vars, n, w, told, body>>
RECURSIVE Root(_)
Root(c) == IF c <= 10 THEN c ELSE Root(task[c - 10].c)
\* a region that has ended has no tasks left that run
Joined == \A c \in Ctx : reg[c].on = "off" => \A k \in Tasks : task[k].c = c => task[k].st = "done"
\* nothing of a region runs after it has been left
JoinedRet == \A c \in Ctx : pend[c].o = "reg" /\ pend[c].st = "done" => Gone(c)
NoneRunsTwice == [][\A k \in Tasks : task[k].st = "done" => task'[k].st = "done"]_all
\* nothing starts in a region after it has been told to be cancelled
Refused == [][\A c \in Ctx : pend'[c].o = "run" /\ pend'[c].r = "canceled" /\ pend[c].st = "call" => reg[c].canc /\ task'[pend[c].k].st = "new"]_all
\* an exception is never reported twice, and when all is over every exception (without a region of its own in between) once
Once == \A k \in Tasks : told[k] <= 1
AllOver == \A c \in Ctx : reg[c].on = "off" /\ pend[c].st = "idle"
Told == AllOver => \A k \in Tasks : task[k].exs = Pow(k) /\ task[k].c <= 10 /\ task[k].st = "done" => told[k] = 1
\* a region is cancelled only because one of its tasks has failed
Canc == \A c \in Ctx : reg[c].canc => \E k \in Tasks : task[k].c = c /\ task[k].st = "done"
Stuck == Cardinality({c \in Ctx : pend[c].st \in {"call", "waiting"}}) > 0 => (\E c \in Ctx : ENABLED Lin(c)) \/ (\E k \in Tasks : task[k].st \in {"queued", "run", "failed", "ended"})
FairSpec == Init /\ [][Next]_all /\ \A c \in Ctx : WF_all(Lin(c) /\ UNCHANGED aux) /\ WF_all(pend[c].st = "done" /\ Next /\ pend'[c].st = "idle")
                 /\ \A k \in Tasks : WF_all((Start(k) \/ Settle(k)) /\ UNCHANGED aux) /\ WF_all(End(k, FALSE, 0) /\ UNCHANGED aux)
Live == \A c \in Threads : (pend[c].st \in {"call", "waiting"}) ~> (pend[c].st = "idle")
\* ---- generation: bodies of one thread each, settled between the steps
GNext == \/ \E c \in Threads : pend[c].st # "idle" /\ (Lin(c) \/ (pend[c].st = "done" /\ Ret(c, pend[c].o, pend[c].r, pend[c].v))) /\ UNCHANGED aux
         \/ (\A c \in Threads : pend[c].st = "idle") /\ \E k \in Tasks : (Start(k) \/ Settle(k) \/ (task[k].st = "run" /\ End(k, FALSE, 0))) /\ UNCHANGED aux
         \/ /\ \A c \in Threads : pend[c].st \in {"idle", "call", "waiting"} /\ ~ENABLED Lin(c)
            /\ \A k \in Tasks : task[k].st \in {"none", "new", "done"}
            /\ UNCHANGED <<n, w, told, body>>
            /\ \E c \in Threads : \/ (reg[c].on = "off" /\ (\A k \in Tasks : task[k].c # c) /\ Enter(c) /\ Log(<<c, "reg", 0>>))
                                  \/ (\E k \in Tasks : (\A j \in 1..k - 1 : task[j].st # "none") /\ CallRun(c, k) /\ Log(<<c, "run", k>>))
                                  \/ (CallWait(c) /\ Log(<<c, "wait", 0>>))
                                  \/ (Leave(c, 0) /\ Log(<<c, "end", 0>>))
GView == vars
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
