------------------------------ MODULE MultiLock ------------------------------
(* Locking several lockables at once: all or none, in whatever order.         *)
(* On the way, an operation may hold some of its lockables for a while (other *)
(* threads can notice), but never while it waits for another one.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Ms
VARIABLES owner, pend, faulty
vars == <<owner, pend, faulty>>
Idle == [st |-> "idle", o |-> "", s |-> <<>>, got |-> {}, blk |-> FALSE, r |-> ""]
BInit(f) == owner = [m \in Ms |-> 0] /\ pend = [t \in Threads |-> Idle] /\ faulty = f
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE Append(Digits(n \div 10), n % 10)
Call(t, o, s) == /\ pend[t].st = "idle"
                 /\ pend' = [pend EXCEPT ![t] = [st |-> "call", o |-> o, s |-> s, got |-> {}, blk |-> FALSE, r |-> ""]]
                 /\ UNCHANGED <<owner, faulty>>
Tries(o) == o \in {"try", "tryn"}
Grab(t) == /\ pend[t].st = "call" /\ pend[t].o # "unlock" /\ ~pend[t].blk
           /\ \E i \in 1..Len(pend[t].s) : LET m == pend[t].s[i] IN
                /\ owner[m] = 0 /\ m \notin pend[t].got
                /\ (Tries(pend[t].o) => Cardinality(pend[t].got) = i - 1)
                /\ owner' = [owner EXCEPT ![m] = t]
                /\ pend' = [pend EXCEPT ![t].got = @ \cup {m}]
           /\ UNCHANGED faulty
\* whoever waits for m may look again
Unblock(f, m) == [u \in Threads |-> IF f[u].blk /\ m \in Rng(f[u].s) THEN [f[u] EXCEPT !.blk = FALSE] ELSE f[u]]
Drop(t) == /\ \/ pend[t].st = "call" /\ pend[t].o = "lockn"
              \/ pend[t].st = "fail"
           /\ \E m \in pend[t].got : /\ owner' = [owner EXCEPT ![m] = 0]
                                     /\ pend' = Unblock([pend EXCEPT ![t].got = @ \ {m}], m)
           /\ UNCHANGED faulty
Names == <<"fail0", "fail1", "fail2", "fail3", "fail4">>
Fail(t) == /\ pend[t].st = "call" /\ Tries(pend[t].o)
           /\ LET i == Cardinality(pend[t].got) + 1 IN
              /\ i <= Len(pend[t].s) /\ (faulty \/ owner[pend[t].s[i]] # 0)
              /\ pend' = [pend EXCEPT ![t].st = "fail", ![t].r = Names[i]]
           /\ UNCHANGED <<owner, faulty>>
Throw(t) == /\ faulty /\ pend[t].st = "call" /\ pend[t].o # "unlock"
            /\ pend' = [pend EXCEPT ![t].st = "fail", ![t].r = "thrown"] /\ UNCHANGED <<owner, faulty>>
Fin(t) == \/ /\ pend[t].st = "call" /\ pend[t].o # "unlock" /\ pend[t].got = Rng(pend[t].s)
             /\ pend' = [pend EXCEPT ![t].st = "done", ![t].r = "ok"] /\ UNCHANGED <<owner, faulty>>
          \/ /\ pend[t].st = "fail" /\ pend[t].got = {}
             /\ pend' = [pend EXCEPT ![t].st = "done"] /\ UNCHANGED <<owner, faulty>>
Unlock(t) == /\ pend[t].st = "call" /\ pend[t].o = "unlock" /\ owner[pend[t].s[1]] = t
             /\ owner' = [owner EXCEPT ![pend[t].s[1]] = 0]
             /\ pend' = Unblock([pend EXCEPT ![t].st = "done", ![t].r = "ok"], pend[t].s[1])
             /\ UNCHANGED faulty
Lin(t) == Grab(t) \/ Drop(t) \/ Fail(t) \/ Throw(t) \/ Fin(t) \/ Unlock(t)
Ret(t, o, r) == /\ pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r
                /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<owner, faulty>>
Blocked(t) == pend[t].st = "call" /\ pend[t].o \in {"lock", "lockn"} /\ pend[t].got = {} /\ \E m \in Rng(pend[t].s) : owner[m] # 0
Quiet == /\ \A t \in Threads : pend[t].st = "idle" \/ Blocked(t)
         /\ pend' = [t \in Threads |-> IF pend[t].st = "call" THEN [pend[t] EXCEPT !.blk = TRUE] ELSE pend[t]]
         /\ UNCHANGED <<owner, faulty>>
Holds(t) == {m \in Ms : owner[m] = t}
=============================================================================
