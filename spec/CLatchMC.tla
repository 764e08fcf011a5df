------------------------------- MODULE CLatchMC -------------------------------
EXTENDS CLatch
CONSTANTS MaxN, MaxRuns
VARIABLES runs, zeros, now
all == <<vars, runs, zeros, now>>
Init == (\E n \in 1..MaxN, k \in {0, 1} : BInit(n, k)) /\ runs = 0 /\ zeros = 0 /\ now = 0
Downs == Cardinality({t \in Threads : pend[t].st = "call" /\ pend[t].o \in {"cd", "cdw"}})
Next == \/ now = 0 /\ now' = 1 /\ UNCHANGED <<vars, runs, zeros>>
        \/ \E t \in Threads :
           \/ Call(t, "wait", 0, 0) /\ UNCHANGED <<runs, zeros, now>>
           \/ Call(t, "wait", 1, 1) /\ UNCHANGED <<runs, zeros, now>>
           \/ Call(t, "try", 0, 0) /\ UNCHANGED <<runs, zeros, now>>
           \/ Downs < count /\ (\E o \in {"cd", "cdw"} : Call(t, o, 0, 0)) /\ UNCHANGED <<runs, zeros, now>>
           \/ Lin(t, now) /\ zeros' = (IF count = 1 /\ count' = 0 THEN zeros + 1 ELSE zeros) /\ UNCHANGED <<runs, now>>
           \/ Run(t, 1) /\ runs' = runs + 1 /\ UNCHANGED <<zeros, now>>
           \/ runs < MaxRuns /\ count = 0 /\ Downs = 0 /\ Reset(t, MaxN) /\ UNCHANGED <<runs, zeros, now>>
           \/ pend[t].st \in {"done", "fct"} /\ Ret(t, pend[t].o, IF pend[t].st = "fct" THEN "ok" ELSE pend[t].r) /\ UNCHANGED <<runs, zeros, now>>
Once == fct = 1 => zeros = runs + (IF last # 0 THEN 1 ELSE 0)
NonNeg == count >= 0
Through == (\E t \in Threads : pend[t].st = "done" /\ pend[t].o = "wait" /\ pend[t].r = "ok") => zeros > 0
FairSpec == Init /\ [][Next]_all /\ \A t \in Threads :
   /\ WF_all(Lin(t, now) /\ zeros' = (IF count = 1 /\ count' = 0 THEN zeros + 1 ELSE zeros) /\ UNCHANGED <<runs, now>>)
   /\ WF_all(Run(t, 1) /\ runs' = runs + 1 /\ UNCHANGED <<zeros, now>>)
Live == \A t \in Threads : (pend[t].st = "call" /\ pend[t].o \in {"wait", "try"}) ~> (pend[t].st # "call")
=============================================================================
