------------------------------ MODULE BarrierMC ------------------------------
EXTENDS Barrier, Json
CONSTANTS MaxGen, MaxN, Depth
VARIABLES fcts, trues, falses, sizes, hist
all == <<vars, fcts, trues, falses, sizes, hist>>
aux == <<fcts, trues, falses, sizes, hist>>
Init == /\ \E k \in 0..8, n \in 1..MaxN, m \in 1..MaxN : (m = n \/ k \in {2, 4, 7}) /\ BInit(k, n, m)
        /\ fcts = 0 /\ trues = 0 /\ falses = 0 /\ sizes = 0 /\ hist = <<>>
Next == \E t \in Threads :
  \/ gen < MaxGen /\ Call(t, 0) /\ UNCHANGED aux
  \/ Arrive(t) /\ UNCHANGED aux
  \/ FctBegin(t) /\ fcts' = fcts + 1 /\ UNCHANGED <<trues, falses, sizes, hist>>
  \/ FctEnd(t) /\ UNCHANGED aux
  \/ Release(t) /\ trues' = trues + 1 /\ falses' = falses + Cardinality({u \in Threads : pend[u].st = "wait"})
     /\ sizes' = sizes + (IF Counting /\ gen % 2 = 1 THEN n2 ELSE n1) /\ UNCHANGED <<fcts, hist>>
  \/ \E r \in {"true", "false"} : Ret(t, r) /\ UNCHANGED aux
\* one leader and one run of the function per generation; exactly size participants
OneLeader == trues = gen /\ trues + falses = sizes
OneRun == HasFct => fcts = gen + (IF lead # 0 /\ pend[lead].st \in {"fct", "ran"} THEN 1 ELSE 0)
\* nobody of a generation leaves before all arrived
Waiting == lead = 0 => left + Cardinality({t \in Threads : pend[t].st = "wait"}) = (IF Counting /\ gen % 2 = 1 THEN n2 ELSE n1)
FairSpec == Init /\ [][Next]_all /\ \A t \in Threads : WF_all(Arrive(t) /\ UNCHANGED aux) /\ WF_all(FctEnd(t) /\ UNCHANGED aux)
              /\ WF_all(FctBegin(t) /\ fcts' = fcts + 1 /\ UNCHANGED <<trues, falses, sizes, hist>>)
              /\ WF_all(Release(t) /\ trues' = trues + 1 /\ falses' = falses + Cardinality({u \in Threads : pend[u].st = "wait"})
                        /\ sizes' = sizes + (IF Counting /\ gen % 2 = 1 THEN n2 ELSE n1) /\ UNCHANGED <<fcts, hist>>)
Live == \A t \in Threads : (pend[t].st = "call") ~> (pend[t].st # "call")
LiveLead == (lead # 0) ~> (lead = 0)
=============================================================================
