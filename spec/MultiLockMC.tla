----------------------------- MODULE MultiLockMC -----------------------------
EXTENDS MultiLock, Json
CONSTANTS Depth, Seqs
VARIABLES hist
Seqs2 == {<<1,2>>,<<2,1>>}
Seqs3 == {<<1,2,3>>,<<3,1,2>>,<<2,1>>,<<3,2>>}
Init == BInit(FALSE) /\ hist = <<>>
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)]
Client(t) == \/ \E s \in Seqs : Rng(s) \cap Holds(t) = {} /\ (\E o \in {"lockn", "tryn"} : Call(t, o, s))
             \/ \E m \in Ms : owner[m] # t /\ Call(t, "try", <<m>>)
             \/ \E m \in Ms : owner[m] = t /\ Call(t, "unlock", <<m>>)
\* clients that only wait while they own nothing
Careful(t) == \/ Holds(t) = {} /\ \E s \in Seqs : Call(t, "lockn", s)
              \/ \E m \in Ms : owner[m] = t /\ Call(t, "unlock", <<m>>)
MRet(t) == pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r)
Next == UNCHANGED hist /\ \E t \in Threads : Lin(t) \/ MRet(t) \/ (pend[t].st = "idle" /\ Client(t))
CNext == UNCHANGED hist /\ \E t \in Threads : Lin(t) \/ MRet(t) \/ (pend[t].st = "idle" /\ Careful(t))
AllOrNone == \A t \in Threads : pend[t].st = "done" /\ pend[t].o \in {"lockn", "tryn"} => (IF pend[t].r = "ok" THEN Rng(pend[t].s) \subseteq Holds(t) ELSE Rng(pend[t].s) \cap Holds(t) = {})
\* with careful clients, a situation where everybody is blocked cannot arise
Stuck == \A t \in Threads : pend[t].st = "idle" \/ Blocked(t)
NoDeadlock == Stuck /\ (\E t \in Threads : pend[t].st = "call") => \E t \in Threads : pend[t].st = "idle" /\ Holds(t) # {}
\* ---- generation
Must(t) == pend[t].st = "fail" \/ (pend[t].st = "call" /\ ~Blocked(t))
Settled == \A t \in Threads : pend[t].st # "done" /\ ~Must(t)
Log(h) == hist' = Append(hist, h)
GClient(t) == \/ \E s \in Seqs : Rng(s) \cap Holds(t) = {} /\ (\E o \in {"lockn", "tryn"} : Call(t, o, s) /\ Log(<<t, o, Num(s), 0>>))
              \/ \E m \in Ms : owner[m] # t /\ Call(t, "try", <<m>>) /\ Log(<<t, "try", m, 0>>)
              \/ \E m \in Ms : owner[m] = t /\ Call(t, "unlock", <<m>>) /\ Log(<<t, "unlock", m, 0>>)
GNext == \/ ~Settled /\ UNCHANGED hist /\ \E t \in Threads : (Must(t) /\ Lin(t)) \/ MRet(t)
         \/ Settled /\ \E t \in Threads : pend[t].st = "idle" /\ GClient(t)
GView == vars
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
