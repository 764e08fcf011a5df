--------------------------------- MODULE Once ---------------------------------
(* call_once: one successful execution per flag; nobody returns before it.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Flags
VARIABLES flag, run, stk
vars == <<flag, run, stk>>
\* flag: "new", "busy", "done"; run[f]: executing thread; stk[t]: calls in progress, innermost last
BInit == flag = [f \in Flags |-> "new"] /\ run = [f \in Flags |-> 0] /\ stk = [t \in Threads |-> <<>>]
Top(t) == stk[t][Len(stk[t])]
Call(t, f) == /\ (stk[t] # <<>> => Top(t).st = "run")
              /\ stk' = [stk EXCEPT ![t] = Append(@, [f |-> f, st |-> "call"])] /\ UNCHANGED <<flag, run>>
SetTop(t, s) == stk' = [stk EXCEPT ![t][Len(stk[t])].st = s]
Begin(t, f) == /\ stk[t] # <<>> /\ Top(t) = [f |-> f, st |-> "call"] /\ flag[f] = "new"
               /\ flag' = [flag EXCEPT ![f] = "busy"] /\ run' = [run EXCEPT ![f] = t] /\ SetTop(t, "run")
Leave(t, f, r) == /\ stk[t] # <<>> /\ Top(t) = [f |-> f, st |-> "run"] /\ run[f] = t
                  /\ SetTop(t, r) /\ run' = [run EXCEPT ![f] = -t] /\ UNCHANGED flag
\* the function has ended; the flag changes before the call returns
Settle(f) == /\ run[f] < 0 /\ run' = [run EXCEPT ![f] = 0]
             /\ LET t == -run[f] IN flag' = [flag EXCEPT ![f] = IF Top(t).st = "thrown" THEN "new" ELSE "done"]
             /\ UNCHANGED stk
Ret(t, f, r) == /\ stk[t] # <<>> /\ Top(t).f = f
                /\ \/ Top(t).st = "call" /\ flag[f] = "done" /\ r = "ok"
                   \/ Top(t).st = r /\ run[f] # -t
                /\ stk' = [stk EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<flag, run>>
Quiet == /\ \A f \in Flags : run[f] >= 0
         /\ \A t \in Threads : stk[t] # <<>> => \/ Top(t).st = "run"
                                                \/ Top(t).st = "call" /\ flag[Top(t).f] = "busy"
End == \A t \in Threads : stk[t] = <<>>
=============================================================================
