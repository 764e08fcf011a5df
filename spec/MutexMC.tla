------------------------------ MODULE MutexMC ------------------------------
(* Exhaustive exploration of Mutex with arbitrary clients, and generation of  *)
(* test histories covering every transition of its quiescent state graph.     *)
EXTENDS Mutex, Json
CONSTANTS MaxNow, MaxRec, Depth
VARIABLES now, hist
all == <<vars, now, hist>>
Ops(t, m) ==
  \/ Call(t, "lock", m, 0, 0) /\ (owner[m] = t => rec)
  \/ Call(t, "try", m, 0, 0) /\ (owner[m] = t => rec)
  \/ (owner[m] = t => rec) /\ \E d \in {0, 1} : Call(t, "timed", m, now + d, 0)
  \/ owner[m] = t /\ Call(t, "unlock", m, 0, 0)
Init == (\E b \in BOOLEAN : BInit(b)) /\ now = 0 /\ hist = <<>>
Step(t) == \/ \E m \in Mutexes : Ops(t, m) /\ UNCHANGED <<now, hist>>
           \/ Lin(t, now) /\ UNCHANGED <<now, hist>>
           \/ pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r) /\ UNCHANGED <<now, hist>>
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, hist>>
Next == Tick \/ \E t \in Threads : Step(t)
Bound == \A m \in Mutexes : cnt[m] <= MaxRec
\* ---- properties
Excl == \A m \in Mutexes : /\ (cnt[m] > 0) = (owner[m] # 0)
                           /\ ~rec => cnt[m] <= 1
TimedOut == \A t \in Threads : pend[t].st = "done" /\ pend[t].o = "timed" /\ pend[t].r = "false" => now >= pend[t].dl
\* a call that is pending is always either able to finish or blocked by another owner
Progress == \A t \in Threads : pend[t].st = "call" => CanLin(t, now) = ENABLED Lin(t, now)
FairSpec == Init /\ [][Next]_all /\ \A t \in Threads : WF_all(Lin(t, now) /\ UNCHANGED <<now, hist>>)
\* a waiter for a mutex that is free forever gets it
Live == \A t \in Threads, m \in Mutexes :
          [](pend[t].st = "call" /\ pend[t].o = "lock" /\ pend[t].m = m => <>(pend[t].st # "call" \/ cnt[m] > 0))
\* ---- generation: one call at a time, then everything that can happen happens
Settled == \A t \in Threads : pend[t].st # "done" /\ ~CanLin(t, now)
Log(h) == hist' = Append(hist, h)
GCall(t, m) == \/ /\ (owner[m] = t => (rec /\ cnt[m] < MaxRec))
                  /\ \/ Call(t, "lock", m, 0, 0) /\ Log(<<t, "lock", m, 0>>)
                     \/ Call(t, "try", m, 0, 0) /\ Log(<<t, "try", m, 0>>)
                     \/ now < MaxNow /\ Call(t, "timed", m, now + 1, 0) /\ Log(<<t, "for", m, 1000>>)
               \/ owner[m] = t /\ Call(t, "unlock", m, 0, 0) /\ Log(<<t, "unlock", m, 0>>)
GNext == \/ ~Settled /\ UNCHANGED <<now, hist>> /\ \E t \in Threads :
              Lin(t, now) \/ (pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r))
         \/ Settled /\ UNCHANGED now /\ \E t \in Threads, m \in Mutexes : GCall(t, m)
         \/ Settled /\ now < MaxNow /\ (\E t \in Threads : pend[t].st = "call" /\ pend[t].o = "timed")
            /\ now' = now + 1 /\ Log(<<0, "", 0, 0>>) /\ UNCHANGED vars
GView == <<vars, now>>
GBound == Len(hist) < Depth
GInit == BInit(TRUE) /\ now = 0 /\ hist = <<>>
GInitNR == BInit(FALSE) /\ now = 0 /\ hist = <<>>
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
