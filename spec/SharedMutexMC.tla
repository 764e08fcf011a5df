---------------------------- MODULE SharedMutexMC ----------------------------
EXTENDS SharedMutex, Json
CONSTANTS MaxNow, Depth, Ups
VARIABLES now, hist
all == <<vars, now, hist>>
Has(t) == IF ex = t THEN "x" ELSE IF up = t THEN "u" ELSE IF t \in sh THEN "s" ELSE "-"
Legal(t, o) == CASE o \in XOps \union SOps -> Has(t) = "-"
                 [] o \in UOps -> Ups /\ Has(t) = "-"
                 [] o \in U2X \union {"uunlock", "u2s"} -> Has(t) = "u"
                 [] o \in S2X \union S2U -> Ups /\ Has(t) = "s"
                 [] o = "sunlock" -> Has(t) = "s"
                 [] o = "unlock" -> Has(t) = "x"
                 [] o \in {"x2s", "x2u"} -> Ups /\ Has(t) = "x"
AllOps == XOps \union SOps \union UOps \union U2X \union S2X \union S2U \union Down
Init == BInit /\ now = 0 /\ hist = <<>>
\* a thread that waits in a conversion keeps what it had; it is not free to call anything else
Step(t) == \/ \E o \in AllOps : Legal(t, o) /\ (\E d \in {0, 1} : (o \in TimedOps \/ d = 0) /\ Call(t, o, now + d, 0))
           \/ Lin(t, now)
           \/ pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r)
Tick == now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, hist>>
Next == Tick \/ \E t \in Threads : Step(t) /\ UNCHANGED <<now, hist>>
\* ---- properties
Excl == /\ ex # 0 => sh = {} /\ up = 0
        /\ up # 0 => up \notin sh
        /\ up \in Threads \union {0} /\ ex \in Threads \union {0}
NotEarly == \A t \in Threads : pend[t].st = "done" /\ pend[t].o \in TimedOps /\ pend[t].r = "false" => now >= pend[t].dl
Progress == \A t \in Threads : CanLin(t, now) => ENABLED Lin(t, now)
FairSpec == Init /\ [][Next]_all /\ \A t \in Threads : WF_all((Grant(t) \/ Refuse(t, now)) /\ UNCHANGED <<now, hist>>)
\* every release and every attempt is answered
Live == \A t \in Threads : [](pend[t].st = "call" /\ pend[t].o \in TryOps \union Down => <>(pend[t].st # "call"))
\* ---- generation
Settled == \A t \in Threads : pend[t].st # "done" /\ ~CanLin(t, now)
Log(h) == hist' = Append(hist, h)
GNext == \/ ~Settled /\ UNCHANGED <<now, hist>> /\ \E t \in Threads :
              (CanLin(t, now) /\ Lin(t, now)) \/ (pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r))
         \/ Settled /\ UNCHANGED now /\ \E t \in Threads, o \in AllOps :
              /\ Legal(t, o) /\ pend[t].st = "idle"
              /\ (o \in TimedOps => now < MaxNow) /\ Call(t, o, now + 1, 0)
              /\ Log(<<t, IF o \in {"sunlock", "uunlock"} THEN "unlock" ELSE o, 0, IF o \in TimedOps THEN 1000 ELSE 0>>)
         \/ Settled /\ now < MaxNow /\ (\E t \in Threads : pend[t].st = "call" /\ pend[t].o \in TimedOps)
            /\ now' = now + 1 /\ Log(<<0, "", 0, 0>>) /\ UNCHANGED vars
GView == <<vars, now>>
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
