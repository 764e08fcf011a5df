------------------------------- MODULE Thread -------------------------------
(* Threads, handles and groups: launch, join, detach, identity; interruption;  *)
(* thread-exit callbacks and thread-specific pointers; sleeping.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Handles, Ptrs, Flags
VARIABLES hd, st, cb, tss, en, gs, req, flag, grp, gj, pend, off, jt, term
vars == <<hd, st, cb, tss, en, gs, req, flag, grp, gj, pend, off, jt, term>>
\* hd[h]: thread the handle refers to (0: none); st[k]: none, new, run, exit, done
\* cb[k]: exit callbacks, last registered last; tss[k][p]: value of thread-specific pointer p
\* en, req: interruption enabled / requested; gs[k]: open disable/restore guards
\* grp: threads in the group; gj: those whose handle in the group is still joinable
\* term: destroying or overwriting a joinable handle ends the program (otherwise it detaches)
Slack == 100000
NoClean == 2          \* pointer without cleanup function
Idle == [st |-> "idle", o |-> "", a |-> 0, b |-> 0, dl |-> 0, t0 |-> 0, mo |-> 0, hit |-> FALSE, s |-> {}, r |-> "", v |-> 0]
BInit(roots, trm) ==
  /\ hd = [h \in Handles |-> 0] /\ st = [k \in Threads |-> IF k <= roots THEN "run" ELSE "none"]
  /\ cb = [k \in Threads |-> <<>>] /\ tss = [k \in Threads |-> [p \in Ptrs |-> 0]]
  /\ en = [k \in Threads |-> k > roots] /\ gs = [k \in Threads |-> <<>>] /\ req = [k \in Threads |-> FALSE]
  /\ flag = [x \in Flags |-> 0] /\ grp = {} /\ gj = {} /\ pend = [k \in Threads |-> Idle]
  /\ off = 0 /\ jt = -1 /\ term = trm
Bit(b, k) == (b \div k) % 2 = 1
Max(a, b) == IF a > b THEN a ELSE b
TimedOps == {"tj", "wait", "sleep", "nsleep"}
Timed(p) == p.o \in TimedOps /\ Bit(p.b, 1)
Foreign(p) == p.o \in TimedOps /\ Bit(p.b, 4)
Jumps(p) == p.o \in TimedOps /\ Bit(p.b, 8)
Rel(p) == Bit(p.b, 16)
ClkOff(p) == IF Jumps(p) THEN off ELSE 0
Reached(p, now) == Timed(p) /\ (p.hit \/ now + ClkOff(p) >= p.dl)

Call(t, o, a, b, dl, now) ==
  /\ pend[t].st = "idle" /\ st[t] \in {"run", "exit"}
  /\ LET p == [Idle EXCEPT !.st = "call", !.o = o, !.a = a, !.b = b, !.dl = dl, !.t0 = now] IN
     pend' = [pend EXCEPT ![t] = [p EXCEPT !.mo = ClkOff(p), !.s = IF o \in {"join", "tj"} THEN {hd[a]} \ {0} ELSE {}]]
  /\ UNCHANGED <<hd, st, cb, tss, en, gs, req, flag, grp, gj, off, jt, term>>
FinV(t, r, v) == pend' = [pend EXCEPT ![t].st = "done", ![t].r = r, ![t].v = v]
Fin(t, r) == FinV(t, r, 0)
In(t, o, s) == pend[t].st = s /\ pend[t].o = o

\* ---- handles --------------------------------------------------------------------------------
\* create: a handle, b thread, dl: 1 detached + 2 * fault (0 none, 1 thread creation, 2 memory, 3 other resources)
Fault(p) == p.dl \div 2
Create(t) ==
  /\ In(t, "create", "call")
  /\ LET p == pend[t] IN
     \/ /\ Fault(p) # 1 /\ st[p.b] = "none" /\ st' = [st EXCEPT ![p.b] = "new"]
        /\ IF hd[p.a] # 0 /\ term THEN Fin(t, "term") /\ UNCHANGED hd
           ELSE Fin(t, "ok") /\ hd' = [hd EXCEPT ![p.a] = IF p.dl % 2 = 1 THEN 0 ELSE p.b]
     \/ Fault(p) = 1 /\ Fin(t, "fail") /\ UNCHANGED <<st, hd>>
     \/ Fault(p) = 2 /\ Fin(t, "nomem") /\ UNCHANGED <<st, hd>>
     \/ Fault(p) = 3 /\ Fin(t, "fail") /\ UNCHANGED <<st, hd>>
  /\ UNCHANGED <<cb, tss, en, gs, req, flag, grp, gj, off, jt, term>>
GCreate(t) ==   \* the thread may run before it is a member
  /\ pend[t].o = "gcreate"
  /\ LET p == pend[t] IN
     \/ p.st = "call" /\ Fault(p) # 1 /\ st[p.b] = "none" /\ st' = [st EXCEPT ![p.b] = "new"] /\ pend' = [pend EXCEPT ![t].st = "add"] /\ UNCHANGED <<grp, gj>>
     \/ p.st = "add" /\ grp' = grp \cup {p.b} /\ gj' = gj \cup {p.b} /\ Fin(t, "ok") /\ UNCHANGED st
     \/ p.st = "call" /\ Fault(p) \in {1, 3} /\ Fin(t, "fail") /\ UNCHANGED <<st, grp, gj>>
     \/ p.st = "call" /\ Fault(p) = 2 /\ Fin(t, "nomem") /\ UNCHANGED <<st, grp, gj>>
  /\ UNCHANGED <<hd, cb, tss, en, gs, req, flag, off, jt, term>>
Start(k) == /\ st[k] = "new" /\ st' = [st EXCEPT ![k] = "run"]
            /\ UNCHANGED <<hd, cb, tss, en, gs, req, flag, grp, gj, pend, off, jt, term>>
End(k) == /\ st[k] = "run" /\ pend[k].st = "idle" /\ st' = [st EXCEPT ![k] = "exit"]
          /\ UNCHANGED <<hd, cb, tss, en, gs, req, flag, grp, gj, pend, off, jt, term>>
\* operations on handles that never wait
Simple(t) ==
  /\ pend[t].st = "call"
  /\ LET p == pend[t]  k == IF p.a \in Handles THEN hd[p.a] ELSE 0 IN
     \/ p.o = "detach" /\ hd' = [hd EXCEPT ![p.a] = 0] /\ Fin(t, "ok") /\ UNCHANGED req
     \/ p.o = "joinable" /\ Fin(t, IF k # 0 THEN "true" ELSE "false") /\ UNCHANGED <<hd, req>>
     \/ p.o = "native" /\ Fin(t, IF k # 0 THEN "true" ELSE "false") /\ UNCHANGED <<hd, req>>
     \/ p.o = "getid" /\ FinV(t, "ok", k) /\ UNCHANGED <<hd, req>>
     \/ p.o = "self" /\ FinV(t, "ok", t) /\ UNCHANGED <<hd, req>>
     \/ p.o = "swap" /\ hd' = [hd EXCEPT ![p.a] = hd[p.b], ![p.b] = hd[p.a]] /\ Fin(t, "ok") /\ UNCHANGED req
     \/ p.o = "move" /\ p.a # p.b /\ UNCHANGED req
        /\ IF hd[p.b] # 0 /\ term THEN Fin(t, "term") /\ UNCHANGED hd
           ELSE hd' = [hd EXCEPT ![p.b] = hd[p.a], ![p.a] = 0] /\ Fin(t, "ok")
     \/ p.o = "dtor" /\ UNCHANGED req
        /\ IF k # 0 /\ term THEN Fin(t, "term") /\ UNCHANGED hd ELSE hd' = [hd EXCEPT ![p.a] = 0] /\ Fin(t, "ok")
     \/ p.o = "interrupt" /\ req' = (IF k # 0 THEN [req EXCEPT ![k] = TRUE] ELSE req) /\ Fin(t, "ok") /\ UNCHANGED hd
     \/ p.o = "ireq" /\ Fin(t, IF k # 0 /\ req[k] THEN "true" ELSE "false") /\ UNCHANGED <<hd, req>>
  /\ UNCHANGED <<st, cb, tss, en, gs, flag, grp, gj, off, jt, term>>

\* ---- interruption -----------------------------------------------------------------------------
Throws(t) == en[t] /\ req[t]
Restore(s) == CHOOSE i \in 1..Len(s) : s[i].g = "dis" /\ \A j \in (i+1)..Len(s) : s[j].g # "dis"
Local(t) ==   \* what a thread does to its own interruption state, flags
  /\ pend[t].st = "call"
  /\ LET p == pend[t] IN
     \/ p.o = "ip" /\ UNCHANGED <<en, gs, flag>>
        /\ IF Throws(t) THEN req' = [req EXCEPT ![t] = FALSE] /\ Fin(t, "int") ELSE Fin(t, "ok") /\ UNCHANGED req
     \/ p.o = "iq" /\ Fin(t, IF req[t] THEN "true" ELSE "false") /\ UNCHANGED <<en, gs, req, flag>>
     \/ p.o = "ie" /\ Fin(t, IF en[t] THEN "true" ELSE "false") /\ UNCHANGED <<en, gs, req, flag>>
     \/ p.o = "dis" /\ gs' = [gs EXCEPT ![t] = Append(@, [g |-> "dis", was |-> en[t]])] /\ en' = [en EXCEPT ![t] = FALSE] /\ Fin(t, "ok") /\ UNCHANGED <<req, flag>>
     \/ p.o = "res" /\ (\E i \in 1..Len(gs[t]) : gs[t][i].g = "dis")
        /\ en' = [en EXCEPT ![t] = @ \/ gs[t][Restore(gs[t])].was]
        /\ gs' = [gs EXCEPT ![t] = Append(@, [g |-> "res", was |-> FALSE])] /\ Fin(t, "ok") /\ UNCHANGED <<req, flag>>
     \/ p.o = "pop" /\ gs[t] # <<>>
        /\ LET g == gs[t][Len(gs[t])] IN en' = [en EXCEPT ![t] = IF g.g = "dis" THEN g.was ELSE FALSE]
        /\ gs' = [gs EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)] /\ Fin(t, "ok") /\ UNCHANGED <<req, flag>>
     \/ p.o = "note" /\ flag' = [flag EXCEPT ![p.a] = 1] /\ Fin(t, "ok") /\ UNCHANGED <<en, gs, req>>
     \/ p.o = "clear" /\ flag' = [flag EXCEPT ![p.a] = 0] /\ Fin(t, "ok") /\ UNCHANGED <<en, gs, req>>
  /\ UNCHANGED <<hd, st, cb, tss, grp, gj, off, jt, term>>

\* ---- waiting ------------------------------------------------------------------------------------
Waits == {"join", "tj", "wait", "sleep", "nsleep", "scope", "gjoin"}
Points == {"join", "tj", "wait", "sleep", "gjoin"}        \* interruption points
Target(p) == hd[p.a]
\* several threads may join through one handle: each waits for the thread the handle referred to when it was called
Overtaken(p) == p.o \in {"join", "tj"} /\ p.s # {} /\ Target(p) = 0
Cond(t, p) == CASE p.o \in {"join", "tj"} -> p.s # {} /\ \A k \in p.s : st[k] = "done"
                [] p.o = "scope" -> Target(p) # 0 /\ st[Target(p)] = "done"
                [] p.o = "wait" -> flag[p.a] = 1
                [] p.o = "gjoin" -> \A k \in gj : st[k] = "done"
                [] OTHER -> FALSE
Good(p) == IF p.o \in {"tj", "wait"} THEN "true" ELSE "ok"
Keep == UNCHANGED <<st, cb, tss, en, gs, flag, grp, off, jt, term>>
After(t, p) == IF p.o \in {"join", "tj", "scope"} THEN hd' = [hd EXCEPT ![p.a] = IF p.o = "scope" \/ @ \in p.s THEN 0 ELSE @] /\ UNCHANGED gj
               ELSE IF p.o = "gjoin" THEN gj' = {} /\ UNCHANGED hd ELSE UNCHANGED <<hd, gj>>
Refuse(t, p) == CASE p.o \in {"join", "tj"} -> IF p.s = {} THEN "inval" ELSE IF p.s = {t} THEN "deadlk" ELSE ""
                  [] p.o = "gjoin" -> IF t \in gj THEN "deadlk" ELSE ""
                  [] OTHER -> ""
Begin(t, now) ==
  /\ pend[t].st = "call" /\ pend[t].o \in Waits /\ Keep
  /\ LET p == pend[t] IN
     IF Refuse(t, p) # "" THEN Fin(t, Refuse(t, p)) /\ UNCHANGED <<hd, req, gj>>
     ELSE IF p.o = "scope" /\ (Target(p) = 0 \/ p.b = 2) THEN hd' = [hd EXCEPT ![p.a] = 0] /\ Fin(t, "ok") /\ UNCHANGED <<req, gj>>
     ELSE IF p.o = "scope" /\ p.b = 1 THEN req' = [req EXCEPT ![Target(p)] = TRUE] /\ pend' = [pend EXCEPT ![t].st = "wait"] /\ UNCHANGED <<hd, gj>>
     ELSE \/ Overtaken(p) /\ Fin(t, "inval") /\ UNCHANGED <<hd, req, gj>>
          \/ Cond(t, p) /\ Fin(t, Good(p)) /\ After(t, p) /\ UNCHANGED req
          \/ ~Cond(t, p) /\ p.o \in Points /\ Throws(t) /\ Fin(t, "int") /\ req' = [req EXCEPT ![t] = FALSE] /\ UNCHANGED <<hd, gj>>
          \/ ~Cond(t, p) /\ (~(p.o \in Points /\ Throws(t)) \/ Reached(p, now)) /\ pend' = [pend EXCEPT ![t].st = "wait"] /\ UNCHANGED <<hd, req, gj>>
\* a request that arrives when the deadline has passed anyway may be left for the next interruption point
Finish(t, now) ==
  /\ pend[t].st = "wait" /\ Keep
  /\ LET p == pend[t] IN
     \/ /\ p.o \in Points /\ Throws(t)
        /\ Fin(t, "int") /\ req' = [req EXCEPT ![t] = FALSE] /\ UNCHANGED hd
        /\ IF p.o = "gjoin" THEN \E S \in SUBSET {k \in gj : st[k] = "done"} : gj' = gj \ S ELSE UNCHANGED gj
     \/ /\ ~(p.o \in Points /\ Throws(t)) /\ Cond(t, p) /\ Fin(t, Good(p)) /\ After(t, p) /\ UNCHANGED req
     \/ ~Cond(t, p) /\ Reached(p, now) /\ Fin(t, IF p.o \in {"sleep", "nsleep"} THEN "ok" ELSE "false") /\ UNCHANGED <<hd, req, gj>>

\* ---- groups ---------------------------------------------------------------------------------------
Group(t) ==
  /\ pend[t].st = "call"
  /\ LET p == pend[t] IN
     \/ p.o = "gadd" /\ hd[p.a] # 0 /\ grp' = grp \cup {hd[p.a]} /\ gj' = gj \cup {hd[p.a]} /\ hd' = [hd EXCEPT ![p.a] = 0] /\ Fin(t, "ok") /\ UNCHANGED req
     \/ p.o = "grem" /\ p.b \in grp /\ hd[p.a] = 0 /\ grp' = grp \ {p.b} /\ gj' = gj \ {p.b}
        /\ hd' = [hd EXCEPT ![p.a] = IF p.b \in gj THEN p.b ELSE 0] /\ Fin(t, "ok") /\ UNCHANGED req
     \/ p.o = "gsize" /\ FinV(t, "ok", Cardinality(grp)) /\ UNCHANGED <<hd, req, grp, gj>>
     \/ p.o = "gin" /\ Fin(t, IF t \in gj THEN "true" ELSE "false") /\ UNCHANGED <<hd, req, grp, gj>>
     \/ p.o = "gtin" /\ Fin(t, IF p.b \in grp THEN "true" ELSE "false") /\ UNCHANGED <<hd, req, grp, gj>>
     \/ p.o = "gint" /\ pend' = [pend EXCEPT ![t].st = "todo", ![t].s = gj] /\ UNCHANGED <<hd, req, grp, gj>>
  /\ UNCHANGED <<st, cb, tss, en, gs, flag, off, jt, term>>
GInt(t) ==
  /\ pend[t].st = "todo"
  /\ \/ \E k \in pend[t].s : req' = [req EXCEPT ![k] = TRUE] /\ pend' = [pend EXCEPT ![t].s = @ \ {k}]
     \/ pend[t].s = {} /\ Fin(t, "ok") /\ UNCHANGED req
  /\ UNCHANGED <<hd, st, cb, tss, en, gs, flag, grp, gj, off, jt, term>>

\* ---- exit callbacks and thread-specific pointers ----------------------------------------------------
AtExit(t) == /\ In(t, "atexit", "call") /\ cb' = [cb EXCEPT ![t] = Append(@, pend[t].a)] /\ Fin(t, "ok")
             /\ UNCHANGED <<hd, st, tss, en, gs, req, flag, grp, gj, off, jt, term>>
\* callbacks run in the reverse order of registration
Cb(k, id) == /\ st[k] = "exit" /\ cb[k] # <<>> /\ cb[k][Len(cb[k])] = id /\ pend[k].st = "idle"
             /\ cb' = [cb EXCEPT ![k] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<hd, st, tss, en, gs, req, flag, grp, gj, pend, off, jt, term>>
\* the cleanup function is called by reset (state "call" of tset) or when the thread ends, after the callbacks registered before its end
CleanReset(k, p, v) == /\ In(k, "tset", "call") /\ pend[k].a = p /\ p # NoClean /\ tss[k][p] = v /\ v # 0 /\ pend[k].b # v
                       /\ pend' = [pend EXCEPT ![k].st = "wait"]
                       /\ UNCHANGED <<hd, st, cb, tss, en, gs, req, flag, grp, gj, off, jt, term>>
CleanExit(k, p, v) == /\ st[k] = "exit" /\ pend[k].st = "idle" /\ p # NoClean /\ tss[k][p] = v /\ v # 0
                      /\ \A i \in 1..Len(cb[k]) : cb[k][i] >= 50
                      /\ tss' = [tss EXCEPT ![k][p] = 0]
                      /\ UNCHANGED <<hd, st, cb, en, gs, req, flag, grp, gj, pend, off, jt, term>>
Clean(k, p, v) == CleanReset(k, p, v) \/ CleanExit(k, p, v)
NeedsClean(t) == LET p == pend[t] IN p.a # NoClean /\ tss[t][p.a] # 0 /\ p.b # tss[t][p.a]
TSet(t) == /\ pend[t].o = "tset" /\ (pend[t].st = "wait" \/ (pend[t].st = "call" /\ ~NeedsClean(t)))
           /\ tss' = [tss EXCEPT ![t][pend[t].a] = pend[t].b] /\ Fin(t, "ok")
           /\ UNCHANGED <<hd, st, cb, en, gs, req, flag, grp, gj, off, jt, term>>
TGet(t) == /\ pend[t].st = "call"
           /\ \/ pend[t].o = "tget" /\ UNCHANGED tss
              \/ pend[t].o = "trel" /\ tss' = [tss EXCEPT ![t][pend[t].a] = 0]
           /\ FinV(t, "ok", tss[t][pend[t].a])
           /\ UNCHANGED <<hd, st, cb, en, gs, req, flag, grp, gj, off, jt, term>>
Ended(k) == cb[k] = <<>> /\ \A p \in Ptrs : p # NoClean => tss[k][p] = 0
Done(k) == /\ st[k] = "exit" /\ pend[k].st = "idle" /\ Ended(k) /\ st' = [st EXCEPT ![k] = "done"]
           /\ UNCHANGED <<hd, cb, tss, en, gs, req, flag, grp, gj, pend, off, jt, term>>

Jump(d, now) == /\ off' = off + d /\ jt' = now
                /\ pend' = [u \in Threads |-> IF pend[u].st # "idle" /\ pend[u].o \in Waits /\ Jumps(pend[u])
                                              THEN [pend[u] EXCEPT !.mo = Max(@, off + d), !.hit = Reached(pend[u], now)] ELSE pend[u]]
                /\ UNCHANGED <<hd, st, cb, tss, en, gs, req, flag, grp, gj, term>>
Lin(t, now) == Create(t) \/ GCreate(t) \/ Simple(t) \/ Local(t) \/ Begin(t, now) \/ Finish(t, now) \/ Group(t) \/ GInt(t)
               \/ AtExit(t) \/ TSet(t) \/ TGet(t) \/ Done(t)
Ret(t, o, r, v) == /\ pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r /\ pend[t].v = v
                   /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<hd, st, cb, tss, en, gs, req, flag, grp, gj, off, jt, term>>
Terminated(t) == pend[t].st = "done" /\ pend[t].r = "term"
InTime(p, now, lim, early) ==
  IF ~Foreign(p) THEN (now < p.dl /\ lim <= p.dl) \/ (early /\ Rel(p))
  ELSE LET at == Max(p.dl - ClkOff(p), Max(IF Jumps(p) THEN jt ELSE 0, p.t0)) IN lim <= at + Slack \/ early
Blocked(t) == LET p == pend[t] IN /\ p.st = "wait" /\ p.o \in Waits /\ ~Cond(t, p) /\ ~(p.o \in Points /\ Throws(t))
Quiet(now, lim, early, end) ==
  \A t \in Threads : /\ pend[t].st \in {"idle", "wait"}
                     /\ pend[t].st = "wait" => Blocked(t) /\ (Timed(pend[t]) => ~end /\ InTime(pend[t], now, lim, early))
                     /\ st[t] # "new"
                     /\ st[t] = "exit" => pend[t].st = "wait"
=============================================================================
