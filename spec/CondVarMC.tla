------------------------------ MODULE CondVarMC ------------------------------
EXTENDS CondVar, Json
CONSTANTS MaxNow, Depth, Styles, Jumpy
VARIABLES now, hist
all == <<vars, now, hist>>
\* styles of waits: bits as in CondVar
Client(t, m) ==
  \/ owner[m] # t /\ (\A x \in Mons : owner[x] # t) /\ Call(t, "lock", m, 0, 0, now)
  \/ owner[m] = t /\ Call(t, "unlock", m, 0, 0, now)
  \/ Call(t, "n1", m, 0, 0, now) \/ Call(t, "nall", m, 0, 0, now)
  \/ owner[m] = t /\ \E b \in Styles : Call(t, "wait", m, b, IF Bit(b, 1) THEN now + 1 + (IF Bit(b, 8) THEN off ELSE 0) ELSE 0, now)
  \/ owner[m] = t /\ Call(t, "exit", m, 0, 0, now)
Free(t) == pend[t].st = "idle" /\ xs[t] = {}
Init == BInit /\ now = 0 /\ hist = <<>>
Step(t) == \/ Free(t) /\ \E m \in Mons : Client(t, m) /\ UNCHANGED <<now, hist>>
           \/ Free(t) /\ (\E m \in Mons : \E v \in {0, 1} : owner[m] = t /\ flag[m] # v /\ Set(t, m, v)) /\ UNCHANGED <<now, hist>>
           \/ Lin(t, now) /\ UNCHANGED <<now, hist>>
           \/ xs[t] # {} /\ TlsDone(t) /\ UNCHANGED <<now, hist>>
           \/ pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r) /\ UNCHANGED <<now, hist>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, hist>>
Next == Tick \/ (Jumpy /\ off = 0 /\ (\E d \in {-1, 1} : Jump(d, now)) /\ UNCHANGED <<now, hist>>) \/ \E t \in Threads : Step(t)
\* ---- properties
\* a wait that has ended owns its mutex, a waiting one does not
Monitor == \A t \in Threads : pend[t].o = "wait" => /\ pend[t].st \in {"call", "done"} => owner[pend[t].m] = t
                                                    /\ pend[t].st \in {"wait", "woke"} => owner[pend[t].m] # t
Truth == \A t \in Threads : (pend[t].st = "done" /\ pend[t].o = "wait") =>
            /\ pend[t].r = "true" => flag[pend[t].m] > 0
            /\ pend[t].r = "false" => flag[pend[t].m] = 0
            /\ (pend[t].r \in {"timeout", "false"} /\ ~Jumps(pend[t])) => Reached(pend[t], now)
            /\ (~Timed(pend[t])) => pend[t].r \in {"ok", "true"}
ExitHolds == \A t \in Threads, m \in Mons : (<<m, "held">> \in xs[t] \/ <<m, "free">> \in xs[t]) => owner[m] = t
\* notify_all leaves no waiter behind, a pending notification reaches a waiter
FairStep(t) == (Lin(t, now) /\ UNCHANGED <<now, hist>>)
FairSpec == Init /\ [][Next]_all /\ \A t \in Threads : WF_all(FairStep(t)) /\ WF_all(pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r) /\ UNCHANGED <<now, hist>>)
Live == \A t \in Threads, m \in Mons :
          [](pend[t].st = "woke" /\ pend[t].n = "n" /\ pend[t].m = m => <>(pend[t].st # "woke" \/ owner[m] # 0))
LiveAll == \A t \in Threads, u \in Threads :
          [](pend[t].st = "call" /\ pend[t].o = "nall" => <>(pend[t].st # "call"))
\* ---- generation
Settled == \A t \in Threads : pend[t].st # "done" /\ ~Must(t, now)
Log(h) == hist' = Append(hist, h)
Sty(b) == CASE b = 0 -> <<"wait", 0>> [] b = 2 -> <<"wait", 1>> [] b = 1 -> <<"until", 0>> [] b = 3 -> <<"until", 1>>
GCall(t, m) ==
  \/ owner[m] # t /\ (\A x \in Mons : owner[x] # t) /\ Call(t, "lock", m, 0, 0, now) /\ Log(<<t, "lock", m, 0, 0>>)
  \/ owner[m] = t /\ Call(t, "unlock", m, 0, 0, now) /\ Log(<<t, "unlock", m, 0, 0>>)
  \/ (\E u \in Threads : pend[u].st = "wait") /\ Call(t, "n1", m, 0, 0, now) /\ Log(<<t, "n1", m, 0, 0>>)
  \/ (\E u \in Threads : pend[u].st = "wait") /\ Call(t, "nall", m, 0, 0, now) /\ Log(<<t, "nall", m, 0, 0>>)
  \/ owner[m] = t /\ \E b \in Styles : Call(t, "wait", m, b, IF Bit(b, 1) THEN now + 1 ELSE 0, now) /\ Log(<<t, Sty(b)[1], m, 1000, Sty(b)[2]>>)
  \/ owner[m] = t /\ flag[m] = 0 /\ (\E u \in Threads : pend[u].st # "idle") /\ Set(t, m, 1) /\ Log(<<t, "set", m, 1, 0>>)
GNext == \/ ~Settled /\ UNCHANGED <<now, hist>> /\ \E t \in Threads :
              \/ Must(t, now) /\ Lin(t, now)
              \/ (pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r))
         \/ Settled /\ UNCHANGED now /\ \E t \in Threads, m \in Mons : pend[t].st = "idle" /\ GCall(t, m)
         \/ Settled /\ now < MaxNow /\ (\E t \in Threads : pend[t].st = "wait" /\ Timed(pend[t]))
            /\ now' = now + 1 /\ Log(<<0, "", 0, 0, 0>>) /\ UNCHANGED vars
GView == <<vars, now>>
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
