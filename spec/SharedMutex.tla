----------------------------- MODULE SharedMutex -----------------------------
(* Shared / upgrade mutex: exclusive owner ex, shared owners sh, upgrade owner up.*)
(* Conversions are atomic; a failed conversion leaves ownership as it was.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads
VARIABLES ex, sh, up, pend
vars == <<ex, sh, up, pend>>
Idle == [st |-> "idle", o |-> "", dl |-> 0, rel |-> 0, r |-> ""]
BInit == ex = 0 /\ sh = {} /\ up = 0 /\ pend = [t \in Threads |-> Idle]

XOps == {"lock", "try", "timed"}   SOps == {"slock", "stry", "stimed"}   UOps == {"ulock", "utry", "utimed"}
U2X == {"u2x", "u2xtry", "u2xtimed"}  S2X == {"s2xtry", "s2xtimed"}  S2U == {"s2utry", "s2utimed"}
Down == {"unlock", "sunlock", "uunlock", "x2s", "x2u", "u2s"}
TryOps == {"try", "stry", "utry", "u2xtry", "s2xtry", "s2utry"}
TimedOps == {"timed", "stimed", "utimed", "u2xtimed", "s2xtimed", "s2utimed"}
\* operations that, while they wait for exclusive ownership, may hold back other requests
Claims == {"lock", "timed", "u2x", "u2xtimed", "s2xtimed"}

Call(t, o, dl, rel) == /\ pend[t].st = "idle"
                       /\ pend' = [pend EXCEPT ![t] = [st |-> "call", o |-> o, dl |-> dl, rel |-> rel, r |-> ""]]
                       /\ UNCHANGED <<ex, sh, up>>
Fin(t, r) == pend' = [pend EXCEPT ![t].st = "done", ![t].r = r]
ClaimPending(t) == \E u \in Threads \ {t} : pend[u].st = "call" /\ pend[u].o \in Claims

Avail(t, o) == CASE o \in XOps -> ex = 0 /\ sh = {} /\ up = 0
                 [] o \in SOps -> ex = 0
                 [] o \in UOps -> ex = 0 /\ up = 0
                 [] o \in U2X -> up = t /\ sh = {}
                 [] o \in S2X -> sh = {t} /\ up = 0
                 [] o \in S2U -> t \in sh /\ up = 0
                 [] o = "unlock" -> ex = t
                 [] o = "sunlock" -> t \in sh
                 [] o = "uunlock" -> up = t
                 [] o \in {"x2s", "x2u"} -> ex = t
                 [] o = "u2s" -> up = t
                 [] OTHER -> FALSE
Grant(t) == LET o == pend[t].o IN
  /\ pend[t].st = "call" /\ Avail(t, o)
  /\ ex' = (CASE o \in XOps \union U2X \union S2X -> t [] o \in {"unlock", "x2s", "x2u"} -> 0 [] OTHER -> ex)
  /\ sh' = (CASE o \in SOps \union {"x2s", "u2s"} -> sh \union {t} [] o \in {"sunlock"} \union S2X \union S2U -> sh \ {t} [] OTHER -> sh)
  /\ up' = (CASE o \in UOps \union {"x2u"} \union S2U -> t [] o \in {"uunlock", "u2s"} \union U2X -> 0 [] OTHER -> up)
  /\ Fin(t, IF o \in {"unlock", "sunlock", "uunlock"} THEN "ok" ELSE "true")
\* a request may only be refused while it cannot be granted, or (except for plain exclusive
\* requests) while another thread waits for exclusive ownership
Held(t, o) == ~Avail(t, o) \/ (o \notin XOps \union {"u2x", "u2xtimed"} /\ ClaimPending(t))
Refuse(t, now) == LET o == pend[t].o IN
  /\ pend[t].st = "call" /\ o \in TryOps \union TimedOps
  /\ Held(t, o) /\ (o \in TimedOps => now >= pend[t].dl)
  /\ Fin(t, "false") /\ UNCHANGED <<ex, sh, up>>
Lin(t, now) == Grant(t) \/ Refuse(t, now)
CanLin(t, now) == pend[t].st = "call" /\
                  LET o == pend[t].o IN ~Held(t, o) \/ o \in TryOps \/ (o \in TimedOps /\ now >= pend[t].dl)
Ret(t, o, r) == /\ pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r
                /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<ex, sh, up>>
Quiet(now, lim, early, end) ==
  \A t \in Threads : /\ pend[t].st # "done"
                     /\ pend[t].st = "call" =>
                          LET o == pend[t].o IN
                          /\ o \notin TryOps /\ Held(t, o)
                          /\ o \in TimedOps => ~end /\ ((now < pend[t].dl /\ lim <= pend[t].dl) \/ (early /\ pend[t].rel = 1))
=============================================================================
