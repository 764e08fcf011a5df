------------------------------- MODULE OnceMC -------------------------------
EXTENDS Once
CONSTANT MaxFail
VARIABLES nfail, good
all == <<vars, nfail, good>>
Init == BInit /\ nfail = 0 /\ good = [f \in Flags |-> 0]
Step(t) == \/ \E f \in Flags : (IF stk[t] = <<>> THEN TRUE ELSE Top(t).st = "run" /\ f > Top(t).f) /\ Call(t, f) /\ UNCHANGED <<nfail, good>>
           \/ \E f \in Flags : Begin(t, f) /\ UNCHANGED <<nfail, good>>
           \/ \E f \in Flags : Leave(t, f, "ok") /\ good' = [good EXCEPT ![f] = @ + 1] /\ UNCHANGED nfail
           \/ \E f \in Flags : nfail < MaxFail /\ Leave(t, f, "thrown") /\ nfail' = nfail + 1 /\ UNCHANGED good
           \/ \E f \in Flags, r \in {"ok", "thrown"} : Ret(t, f, r) /\ UNCHANGED <<nfail, good>>
Next == (\E t \in Threads : Step(t)) \/ (\E f \in Flags : Settle(f) /\ UNCHANGED <<nfail, good>>)
Once == \A f \in Flags : good[f] <= 1 /\ (flag[f] = "done" => good[f] = 1)
Alone == \A f \in Flags : Cardinality({t \in Threads : \E i \in 1..Len(stk[t]) : stk[t][i] = [f |-> f, st |-> "run"]}) <= 1
FairSpec == /\ Init /\ [][Next]_all
            /\ \A t \in Threads : /\ SF_all(\E f \in Flags : Begin(t, f) /\ UNCHANGED <<nfail, good>>)
                                  /\ SF_all(\E f \in Flags, r \in {"ok", "thrown"} : Ret(t, f, r) /\ UNCHANGED <<nfail, good>>)
                                  /\ WF_all(\E f \in Flags : Leave(t, f, "ok") /\ good' = [good EXCEPT ![f] = @ + 1] /\ UNCHANGED nfail)
            /\ \A f \in Flags : WF_all(Settle(f) /\ UNCHANGED <<nfail, good>>)
Live == \A t \in Threads : (stk[t] # <<>>) ~> (stk[t] = <<>>)
=============================================================================
