------------------------------ MODULE WaitCbMC ------------------------------
EXTENDS WaitCb, Json
CONSTANTS MaxOps, MaxNow, CbKinds, Tasks, Depth
VARIABLES now, n, calls, hist
\* calls[c]: for which sources the wait under way has called callbacks
aux == <<now, n, calls, hist>>
all == <<vars, aux>>
Init == WInit(Tasks) /\ now = 0 /\ n = 0 /\ calls = [c \in Ctx |-> <<>>] /\ hist = <<>>
Log(e) == hist' = Append(hist, e)
C(c, o, s, k, dl) == Call(c, o, s, k, dl, now) /\ calls' = [calls EXCEPT ![c] = <<>>]
Client(t) == \E s \in Src : \/ \E k \in CbKinds : C(t, "scb", s, k, 0) /\ Log(<<t, "scb", s, k, 0>>)
                            \/ C(t, "set", s, 0, 0) /\ Log(<<t, "set", s, 0, 0>>)
                            \/ C(t, "w", s, 0, 0) /\ Log(<<t, "w", s, 0, 0>>)
                            \/ MaxNow > 0 /\ C(t, "w", s, 1, now + 1) /\ Log(<<t, "w", s, 2, 1>>)
                            \/ C(t, "any", s - 1, 0, 0) /\ Log(<<t, "any", s - 1, 0, 0>>)
                            \/ C(t, "all", s - 1, 0, 0) /\ Log(<<t, "all", s - 1, 0, 0>>)
\* what callbacks do by their kind
Inside(t) == LET s == pend[t].s k == pend[t].k IN
  /\ pend[t].st = "cb" /\ UNCHANGED <<now, n, hist, calls>>
  /\ \/ k \in {2, 5} /\ Call(10 + t, "set", s, 0, 0, now)
     \/ k = 4 /\ Call(10 + t, "scb", s, 1, 0, now)
     \/ (k \in {2, 5} => started[s]) /\ CbEnd(t, k = 3)
Next == \/ \E t \in Threads : n < MaxOps /\ n' = n + 1 /\ UNCHANGED now /\ Client(t)
        \/ \E c \in Ctx : Lin(c, now) /\ UNCHANGED aux
        \/ \E t \in Threads : \E s \in Src, k \in CbKinds \cup {1} : CbStart(t, s, k) /\ calls' = [calls EXCEPT ![t] = Append(@, s)] /\ UNCHANGED <<now, n, hist>>
        \/ \E t \in Threads : Inside(t)
        \/ \E c \in Ctx : pend[c].st = "done" /\ Ret(c, pend[c].o, pend[c].r) /\ UNCHANGED aux
        \/ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, n, calls, hist>>
View == <<vars, now, n, calls>>
\* a wait calls at most one callback per source it waits for, and ends well only with a result
Once == \A c \in Ctx : \A i, j \in 1..Len(calls[c]) : i # j => calls[c][i] # calls[c][j]
True == \A c \in Ctx : pend[c].st = "done" => /\ (pend[c].o = "w" /\ pend[c].r = "ok" => ready[pend[c].s])
                                             /\ (pend[c].o = "all" /\ pend[c].r = "ok" => \A s \in Src : ready[s])
                                             /\ (pend[c].o = "any" /\ pend[c].r \in {"1", "2"} => ready[IF pend[c].r = "1" THEN 1 ELSE 2])
\* callbacks are called for results that were missing when the wait looked, never by anybody else
Lazy == [][\A t \in Threads : pend[t].st # "due" /\ pend'[t].st = "due" => ~ready[pend'[t].s] /\ pend'[t].k = cb[pend'[t].s] /\ pend[t].o \in Waits]_all
Stuck == (\A c \in Ctx : pend[c].st = "idle" \/ Blocked(c)) => \A t \in Threads : Blocked(t) => \E s \in Src : ~ready[s]
\* if callbacks satisfy their source, whoever waits for a source that has one always gets the result
Served == CbKinds \subseteq {2} => \A t \in Threads : Blocked(t) /\ calls[t] # <<>> => \A i \in 1..Len(calls[t]) : started[calls[t][i]]
\* ---- generation
GBusy(c) == pend[c].st \in {"done", "due", "cb", "runs"} \/ (pend[c].st \in {"call", "blk"} /\ ~Blocked(c))
GInside(t) == LET k == pend[t].k s == pend[t].s IN
  /\ pend[t].st = "cb" /\ pend[10 + t].st = "idle" /\ UNCHANGED aux
  /\ IF k \in {2, 5} /\ ~started[s] THEN Call(10 + t, "set", s, 0, 0, now) ELSE CbEnd(t, k = 3)
GStep == \/ \E c \in Ctx : GBusy(c) /\ Lin(c, now) /\ UNCHANGED aux
         \/ \E t \in Threads : \E s \in Src, k \in CbKinds \cup {1} : CbStart(t, s, k) /\ UNCHANGED aux
         \/ \E t \in Threads : GInside(t)
         \/ \E c \in Ctx : pend[c].st = "done" /\ Ret(c, pend[c].o, pend[c].r) /\ UNCHANGED aux
GIdle == \A c \in Ctx : ~GBusy(c)
GNext == IF GIdle THEN (\E t \in Threads : pend[t].st = "idle" /\ Client(t)) /\ UNCHANGED <<now, n>> ELSE GStep
GView == vars
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
