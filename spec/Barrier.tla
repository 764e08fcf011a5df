------------------------------- MODULE Barrier -------------------------------
(* A barrier: the threads of one generation leave together, after the          *)
(* completion function has run once.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads
VARIABLES left, n1, n2, kind, gen, lead, pend
vars == <<left, n1, n2, kind, gen, lead, pend>>
HasFct == kind \in {1, 2, 3, 4, 6, 7}
Counting == kind \in {2, 4, 7}
Idle == [st |-> "idle", a |-> 0]
\* lead: 0, or the thread that completed the generation; its st tells how far the function is
BInit(k, n, m) == left = n /\ n1 = n /\ n2 = m /\ kind = k /\ gen = 0 /\ lead = 0 /\ pend = [t \in Threads |-> Idle]
Call(t, a) == pend[t].st = "idle" /\ pend' = [pend EXCEPT ![t] = [st |-> "call", a |-> a]] /\ UNCHANGED <<left, n1, n2, kind, gen, lead>>
Arrive(t) == /\ pend[t].st = "call" /\ lead = 0
             /\ IF left = 1 THEN lead' = t /\ left' = 0 /\ pend' = [pend EXCEPT ![t].st = IF HasFct THEN "full" ELSE "ran"]
                ELSE left' = left - 1 /\ pend' = [pend EXCEPT ![t].st = "wait"] /\ UNCHANGED lead
             /\ UNCHANGED <<n1, n2, kind, gen>>
FctBegin(t) == lead = t /\ pend[t].st = "full" /\ pend' = [pend EXCEPT ![t].st = "fct"] /\ UNCHANGED <<left, n1, n2, kind, gen, lead>>
FctEnd(t) == lead = t /\ pend[t].st = "fct" /\ pend' = [pend EXCEPT ![t].st = "ran"] /\ UNCHANGED <<left, n1, n2, kind, gen, lead>>
Release(t) == /\ lead = t /\ pend[t].st = "ran" /\ lead' = 0 /\ gen' = gen + 1
              /\ left' = IF Counting /\ gen' % 2 = 1 THEN n2 ELSE n1
              /\ pend' = [u \in Threads |-> IF u = t THEN [pend[u] EXCEPT !.st = "true"] ELSE IF pend[u].st = "wait" THEN [pend[u] EXCEPT !.st = "false"] ELSE pend[u]]
              /\ UNCHANGED <<n1, n2, kind>>
Lin(t) == Arrive(t) \/ Release(t)
Ret(t, r) == /\ pend[t].st \in {"true", "false"} /\ r = (IF pend[t].a = 1 THEN "none" ELSE pend[t].st)
             /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<left, n1, n2, kind, gen, lead>>
\* nobody can go on: at most the function is running, and whoever enters or leaves waits for it
Quiet == \A t \in Threads : pend[t].st \in {"idle", "wait", "fct"} \/ (pend[t].st \in {"call", "true", "false"} /\ lead # 0)
End == lead = 0
=============================================================================
