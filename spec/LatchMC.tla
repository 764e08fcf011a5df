------------------------------- MODULE LatchMC -------------------------------
EXTENDS Latch, Json
CONSTANTS MaxNow, MaxN, MaxReset, Depth
VARIABLES now, budget, resets, zero, hist
aux == <<now, budget, resets, zero, hist>>
all == <<vars, aux>>
\* budget: countdowns that may still be asked for; zero: how often zero was reached
Init == \E n \in 0..MaxN : BInit(n) /\ now = 0 /\ budget = n /\ resets = 0 /\ zero = (IF n = 0 THEN 1 ELSE 0)
        /\ hist = <<<<n, "init", 0, 0, 0>>>>
Busy == \E t \in Threads : pend[t].st # "idle" /\ pend[t].o # "wait"
Counting == \E u \in Threads : pend[u].st = "call" /\ pend[u].o \in {"cd", "cdw", "tcd"}
Client(t) ==
  \/ Call(t, "wait", 0, 0, 0, now) /\ UNCHANGED aux
  \/ Call(t, "wait", 1, 0, now + 1, now) /\ UNCHANGED aux
  \/ Call(t, "try", 0, 0, 0, now) /\ UNCHANGED aux
  \/ budget > 0 /\ (\A u \in Threads : pend[u].o # "reset") /\ (\E o \in {"cd", "cdw"} : Call(t, o, 0, 0, 0, now)) /\ budget' = budget - 1 /\ UNCHANGED <<now, resets, zero, hist>>
  \/ (\A u \in Threads : pend[u].o # "reset") /\ (budget > 0 \/ ~Counting) /\ Call(t, "tcd", 0, 0, 0, now) /\ budget' = (IF budget > 0 THEN budget - 1 ELSE 0) /\ UNCHANGED <<now, resets, zero, hist>>
  \/ resets < MaxReset /\ ~Busy /\ (\E n \in 1..MaxN : Call(t, "reset", n, 0, 0, now) /\ budget' = n) /\ resets' = resets + 1 /\ UNCHANGED <<now, zero, hist>>
Step(t) == Client(t) \/ (Lin(t, now) /\ zero' = (IF count' = 0 /\ count # 0 THEN zero + 1 ELSE zero) /\ UNCHANGED <<now, budget, resets, hist>>)
           \/ (pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r) /\ UNCHANGED aux)
Next == (now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, budget, resets, zero, hist>>) \/ \E t \in Threads : Step(t)
NonNeg == count >= 0
\* nobody is let through before the counter has reached zero
Through == (\E t \in Threads : pend[t].st = "done" /\ pend[t].o \in {"wait", "cdw"} /\ pend[t].r = "ok") => zero > 0
\* without a reset, nobody waits once zero
NoneLeft == (resets = 0 /\ count = 0) => \A t \in Threads : pend[t].st # "wait"
FairSpec == Init /\ [][Next]_all /\ \A t \in Threads : WF_all(Lin(t, now) /\ zero' = (IF count' = 0 /\ count # 0 THEN zero + 1 ELSE zero) /\ UNCHANGED <<now, budget, resets, hist>>)
Live == \A t \in Threads : (pend[t].st = "call") ~> (pend[t].st # "call")
LiveZero == \A t \in Threads : (pend[t].st = "call" /\ pend[t].o = "wait" /\ count = 0 /\ resets = MaxReset) ~> (pend[t].st # "call" /\ pend[t].st # "wait")
\* ---- generation
Must(t) == pend[t].st = "call" \/ (pend[t].st = "wait" /\ pend[t].a = 1 /\ pend[t].o = "wait" /\ now >= pend[t].dl)
Settled == \A t \in Threads : pend[t].st # "done" /\ ~Must(t)
Log(h) == hist' = Append(hist, h)
GCall(t) ==
  \/ Call(t, "wait", 0, 0, 0, now) /\ Log(<<t, "wait", 0, 0, 0>>) /\ UNCHANGED <<budget, resets>>
  \/ now < MaxNow /\ Call(t, "wait", 1, 0, now + 1, now) /\ Log(<<t, "until", 0, 1000, 0>>) /\ UNCHANGED <<budget, resets>>
  \/ Call(t, "try", 0, 0, 0, now) /\ Log(<<t, "try", 0, 0, 0>>) /\ UNCHANGED <<budget, resets>>
  \/ budget > 0 /\ (\E o \in {"cd", "cdw"} : Call(t, o, 0, 0, 0, now) /\ Log(<<t, o, 0, 0, 0>>)) /\ budget' = budget - 1 /\ UNCHANGED resets
  \/ Call(t, "tcd", 0, 0, 0, now) /\ budget' = (IF budget > 0 THEN budget - 1 ELSE 0) /\ Log(<<t, "tcd", 0, 0, 0>>) /\ UNCHANGED resets
  \/ resets < MaxReset /\ (\A u \in Threads : pend[u].o # "cdw") /\ (\E n \in 1..MaxN : Call(t, "reset", n, 0, 0, now) /\ budget' = n /\ Log(<<t, "reset", n, 0, 0>>)) /\ resets' = resets + 1
GNext == \/ ~Settled /\ (\E t \in Threads : (Must(t) /\ Lin(t, now)) \/ (pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r))) /\ UNCHANGED aux
         \/ Settled /\ (\E t \in Threads : pend[t].st = "idle" /\ GCall(t)) /\ UNCHANGED <<now, zero>>
         \/ Settled /\ now < MaxNow /\ (\E t \in Threads : pend[t].st = "wait" /\ pend[t].a = 1) /\ now' = now + 1 /\ Log(<<0, "", 0, 0, 0>>) /\ UNCHANGED <<vars, budget, resets, zero>>
GView == <<vars, now, budget, resets>>
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
