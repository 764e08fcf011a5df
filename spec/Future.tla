------------------------------- MODULE Future -------------------------------
(* Shared states and the objects that refer to them: promises, tasks, futures; *)
(* asynchronous and deferred functions; continuations; when_all / when_any;    *)
(* readiness at thread exit.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Proms, Tasks, Futs, Wraps
VARIABLES ss, pr, tk, fu, vf, wr, ended, tls, pend, off, jt, cfg
vars == <<ss, pr, tk, fu, vf, wr, ended, tls, pend, off, jt, cfg>>
\* ss: state identifier -> state.
\*   kd: p promise, t task, a function, c continuation, f fallback, w unwrapped, l all of, y any of
\*   done, r, v: outcome; val: not yet consumed; con: 0, thread at whose exit it becomes ready, or -1 (set, not announced)
\*   st: no, lazy, trig (its parent is being waited for), go, run, end, fin; who: thread that has to run it, 0 a library thread
\*   par: parent (c, f, w) / members (l, y); pol: none, async, defer, sync, exec
\* pr, tk: [x exists, s state (0 none), g future retrieved]; fu: [s, k] with k "u" or "s"; vf: [s, m] future of futures
\* wr: promises of futures: [s] state that is to be unwrapped
\* cfg: inv (get invalidates), lazy (promise allocates late), void (the value is not visible)
Slack == 100000
State0 == [kd |-> "p", done |-> FALSE, r |-> "", v |-> 0, val |-> TRUE, con |-> 0, st |-> "no", who |-> 0, par |-> <<>>, pol |-> "none"]
Idle == [st |-> "idle", o |-> "", a |-> 0, b |-> 0, c |-> 0, v |-> 0, w |-> 0, t0 |-> 0, mo |-> 0, hit |-> FALSE, r |-> "", x |-> 0, i |-> 0]
None == [s |-> 0, k |-> "u"]
FInit(c) ==
  /\ ss = <<>> /\ pr = [p \in Proms |-> [x |-> FALSE, s |-> 0, g |-> FALSE]] /\ tk = [p \in Tasks |-> [x |-> FALSE, s |-> 0, g |-> FALSE]]
  /\ fu = [f \in Futs |-> None] /\ vf = [s |-> 0, m |-> <<>>] /\ wr = [w \in Wraps |-> 0]
  /\ ended = {} /\ tls = {} /\ pend = [t \in Threads |-> Idle] /\ off = 0 /\ jt = -1 /\ cfg = c
Max(a, b) == IF a > b THEN a ELSE b
Bit(b, k) == (b \div k) % 2 = 1
Add(k, s) == k :> s @@ ss
\* ---- time
Timed(p) == p.o \in {"ftw", "vtw"}
Form(p) == p.b
Foreign(p) == Timed(p) /\ Bit(Form(p), 4)
Jumps(p) == Timed(p) /\ Bit(Form(p), 8)
Rel(p) == Bit(Form(p), 16)
Old(p) == Bit(Form(p), 32)            \* reports true / false
ClkOff(p) == IF Jumps(p) THEN off ELSE 0
Reached(p, now) == Timed(p) /\ (p.hit \/ now + ClkOff(p) >= p.v)

Call(t, o, a, b, v, now) ==
  /\ pend[t].st = "idle" /\ t \notin ended
  /\ LET p == [Idle EXCEPT !.st = "call", !.o = o, !.a = a, !.b = b, !.v = v, !.t0 = now] IN pend' = [pend EXCEPT ![t] = [p EXCEPT !.mo = ClkOff(p)]]
  /\ UNCHANGED <<ss, pr, tk, fu, vf, wr, ended, tls, off, jt, cfg>>
Res(t, r, x) == pend' = [pend EXCEPT ![t].st = "done", ![t].r = r, ![t].x = x]
Fin(t, r) == Res(t, r, 0)

\* ---- completion ------------------------------------------------------------------------------------
\* what the completion of a state does to those that depend on it; t: thread that completes it
Wakes(c, k) == c.kd \in {"c", "f"} /\ c.par = <<k>> /\ c.st = "no"
Wake(c, t) == IF c.pol = "sync" THEN [c EXCEPT !.st = "go", !.who = t] ELSE [c EXCEPT !.st = "go", !.who = 0]
DoneIn(S, k, r, v, t) == [x \in DOMAIN S |-> IF x = k THEN [S[x] EXCEPT !.done = TRUE, !.r = r, !.v = v, !.st = "fin", !.con = 0]
                                             ELSE IF Wakes(S[x], k) THEN Wake(S[x], t)
                                             ELSE IF S[x].kd = "w" /\ S[x].st = "no" /\ S[x].par = <<k>> THEN [S[x] EXCEPT !.st = "go", !.who = t] ELSE S[x]]
Seen(k) == IF cfg.void /\ ss[k].r = "ok" THEN 0 ELSE ss[k].v
Sat(k) == ss[k].done \/ ss[k].con # 0
\* the owner of an unsatisfied promise or of a task that was not started goes away
BreakP(S, k, t) == IF k # 0 /\ ~S[k].done /\ S[k].con = 0 THEN DoneIn(S, k, "broken", 0, t) ELSE S
BreakT(S, k, t) == IF k # 0 /\ S[k].st = "no" THEN DoneIn(S, k, "broken", 0, t) ELSE S

\* ---- promises: v of the call is the identifier of a new state --------------------------------------
SetOps == {"pset", "pexc", "psetx", "pexcx", "psetd", "pexcd"}
Val(p) == p.b                         \* value / exception code
Prom(t) ==
  /\ pend[t].st = "call" /\ UNCHANGED <<tk, vf, wr, ended, tls, off, jt, cfg>>
  /\ LET p == pend[t] IN
     \/ p.o = "pnew" /\ ~pr[p.a].x /\ UNCHANGED fu /\ Fin(t, "ok")
        /\ IF cfg.lazy THEN pr' = [pr EXCEPT ![p.a] = [x |-> TRUE, s |-> 0, g |-> FALSE]] /\ UNCHANGED ss
           ELSE pr' = [pr EXCEPT ![p.a] = [x |-> TRUE, s |-> p.v, g |-> FALSE]] /\ ss' = Add(p.v, State0)
     \/ p.o = "pget" /\ pr[p.a].x
        /\ LET q == pr[p.a] IN
           IF q.s = 0 /\ ~cfg.lazy THEN Fin(t, "moved") /\ UNCHANGED <<ss, pr, fu>>
           ELSE IF q.g THEN Fin(t, "retr") /\ UNCHANGED <<ss, pr, fu>>
           ELSE LET k == IF q.s = 0 THEN p.v ELSE q.s IN
                Fin(t, "ok") /\ pr' = [pr EXCEPT ![p.a].s = k, ![p.a].g = TRUE] /\ fu' = [fu EXCEPT ![p.b] = [s |-> k, k |-> "u"]]
                /\ ss' = IF q.s = 0 THEN Add(k, State0) ELSE ss
     \/ p.o \in SetOps /\ pr[p.a].x /\ UNCHANGED fu
        /\ LET q == pr[p.a] IN
           IF q.s = 0 /\ ~cfg.lazy THEN Fin(t, "moved") /\ UNCHANGED <<ss, pr>>
           ELSE LET k == IF q.s = 0 THEN p.v ELSE q.s
                    S == IF q.s = 0 THEN Add(k, State0) ELSE ss
                    r == IF p.o \in {"pset", "psetx", "psetd"} THEN "ok" ELSE "exc" IN
                /\ pr' = [pr EXCEPT ![p.a].s = k]
                /\ IF S[k].done \/ S[k].con # 0 THEN Fin(t, "sat") /\ ss' = S
                   ELSE /\ Fin(t, "ok")
                        /\ ss' = CASE p.o \in {"pset", "pexc"} -> DoneIn(S, k, r, Val(p), t)
                                   [] p.o \in {"psetx", "pexcx"} -> [S EXCEPT ![k].con = t, ![k].r = r, ![k].v = Val(p)]
                                   [] OTHER -> [S EXCEPT ![k].con = -1, ![k].r = r, ![k].v = Val(p)]
     \/ p.o = "pnot" /\ pr[p.a].x /\ pr[p.a].s # 0 /\ ss[pr[p.a].s].con = -1 /\ UNCHANGED <<pr, fu>> /\ Fin(t, "ok")
        /\ ss' = DoneIn(ss, pr[p.a].s, ss[pr[p.a].s].r, ss[pr[p.a].s].v, t)
     \/ p.o = "pmove" /\ pr[p.a].x /\ p.a # p.b /\ UNCHANGED fu /\ Fin(t, "ok")
        /\ pr' = [pr EXCEPT ![p.b] = pr[p.a], ![p.a] = [x |-> TRUE, s |-> 0, g |-> FALSE]]
        /\ ss' = BreakP(ss, IF pr[p.b].x THEN pr[p.b].s ELSE 0, t)
     \/ p.o = "pswap" /\ pr[p.a].x /\ pr[p.b].x /\ UNCHANGED <<fu, ss>> /\ Fin(t, "ok")
        /\ pr' = [pr EXCEPT ![p.a] = pr[p.b], ![p.b] = pr[p.a]]
     \/ p.o = "pdtor" /\ pr[p.a].x /\ UNCHANGED fu /\ Fin(t, "ok")
        /\ pr' = [pr EXCEPT ![p.a] = [x |-> FALSE, s |-> 0, g |-> FALSE]] /\ ss' = BreakP(ss, pr[p.a].s, t)

\* ---- tasks ---------------------------------------------------------------------------------------------
Task(t) ==
  /\ pend[t].st = "call" /\ UNCHANGED <<pr, vf, wr, ended, tls, off, jt, cfg>>
  /\ LET p == pend[t] IN
     \/ p.o = "tnew" /\ ~tk[p.a].x /\ UNCHANGED fu /\ Fin(t, "ok")
        /\ tk' = [tk EXCEPT ![p.a] = [x |-> TRUE, s |-> p.v, g |-> FALSE]] /\ ss' = Add(p.v, [State0 EXCEPT !.kd = "t"])
     \/ p.o = "tvalid" /\ tk[p.a].x /\ UNCHANGED <<ss, tk, fu>> /\ Fin(t, IF tk[p.a].s # 0 THEN "true" ELSE "false")
     \/ p.o = "tget" /\ tk[p.a].x /\ UNCHANGED ss
        /\ LET q == tk[p.a] IN
           IF q.s = 0 THEN Fin(t, "moved") /\ UNCHANGED <<tk, fu>>
           ELSE IF q.g THEN Fin(t, "retr") /\ UNCHANGED <<tk, fu>>
           ELSE Fin(t, "ok") /\ tk' = [tk EXCEPT ![p.a].g = TRUE] /\ fu' = [fu EXCEPT ![p.b] = [s |-> q.s, k |-> "u"]]
     \/ p.o \in {"trun", "trunx"} /\ tk[p.a].x /\ UNCHANGED <<tk, fu>>
        /\ LET k == tk[p.a].s IN
           IF k = 0 THEN Fin(t, "moved") /\ UNCHANGED ss
           ELSE IF ss[k].st # "no" THEN Fin(t, IF p.o = "trunx" /\ ss[k].done /\ ss[k].r = "ok" THEN "sat" ELSE "started") /\ UNCHANGED ss
           ELSE /\ ss' = [ss EXCEPT ![k].st = "go", ![k].who = t, ![k].pol = IF p.o = "trunx" THEN "exit" ELSE @] /\ Fin(t, "ok")
     \/ p.o = "tmove" /\ tk[p.a].x /\ p.a # p.b /\ UNCHANGED fu /\ Fin(t, "ok")
        /\ tk' = [tk EXCEPT ![p.b] = tk[p.a], ![p.a] = [x |-> TRUE, s |-> 0, g |-> FALSE]]
        /\ ss' = BreakT(ss, IF tk[p.b].x THEN tk[p.b].s ELSE 0, t)
     \/ p.o = "tswap" /\ tk[p.a].x /\ tk[p.b].x /\ UNCHANGED <<fu, ss>> /\ Fin(t, "ok")
        /\ tk' = [tk EXCEPT ![p.a] = tk[p.b], ![p.b] = tk[p.a]]
     \/ p.o = "tdtor" /\ tk[p.a].x /\ UNCHANGED fu /\ Fin(t, "ok")
        /\ tk' = [tk EXCEPT ![p.a] = [x |-> FALSE, s |-> 0, g |-> FALSE]] /\ ss' = BreakT(ss, tk[p.a].s, t)

\* ---- functions, ready futures, continuations: a slot, b policy / other slot, v identifier ------------------
PolOf(c) == CASE c = 0 -> "async" [] c = 1 -> "defer" [] c = 2 -> "async" [] c = 3 -> "exec" [] c = 4 -> "sync" [] OTHER -> "none"
Inherit(pol) == IF pol \in {"async", "defer", "exec"} THEN pol ELSE "async"
NewCont(kd, k, pol, t) ==   \* a continuation of state k
  LET c == [State0 EXCEPT !.kd = kd, !.par = <<k>>, !.pol = pol, !.st = IF pol = "defer" THEN "lazy" ELSE "no"]
  IN IF ss[k].done /\ pol # "defer" THEN Wake(c, t) ELSE c
Make(t) ==
  /\ pend[t].st = "call" /\ UNCHANGED <<pr, tk, vf, ended, tls, off, jt, cfg>>
  /\ LET p == pend[t]  slot == p.a % 100  oth == p.a \div 100 IN
     \/ p.o = "anew" /\ UNCHANGED wr /\ Fin(t, "ok")
        /\ LET pol == PolOf(p.b) IN
           ss' = Add(p.v, [State0 EXCEPT !.kd = "a", !.pol = pol, !.st = IF pol = "defer" THEN "lazy" ELSE "go"])
        /\ fu' = [fu EXCEPT ![slot] = [s |-> p.v, k |-> "u"]]
     \/ p.o = "mkr" /\ UNCHANGED wr /\ Fin(t, "ok")     \* b: 0 value, 1 exception, 2 shared future with a value
        /\ ss' = Add(p.v, [State0 EXCEPT !.done = TRUE, !.st = "fin", !.r = IF p.b = 1 THEN "exc" ELSE "ok", !.v = p.v])
        /\ fu' = [fu EXCEPT ![slot] = [s |-> p.v, k |-> IF p.b = 2 THEN "s" ELSE "u"]]
     \/ p.o \in {"then", "fallb"} /\ fu[slot].s # 0 /\ UNCHANGED wr /\ Fin(t, "ok")
        /\ LET k == fu[slot].s
               pol == IF p.b = 5 THEN Inherit(ss[k].pol) ELSE PolOf(p.b) IN
           /\ ss' = Add(p.v, NewCont(IF p.o = "then" THEN "c" ELSE "f", k, pol, t))
           /\ fu' = [f \in Futs |-> IF f = oth THEN [s |-> p.v, k |-> "u"] ELSE IF f = slot /\ fu[slot].k = "u" THEN None ELSE fu[f]]
     \/ p.o = "unw" /\ wr[oth] = 0 /\ Fin(t, "ok")         \* a promise of a future, its future unwrapped into a slot
        /\ ss' = Add(p.v, [State0 EXCEPT !.kd = "w"]) /\ wr' = [wr EXCEPT ![oth] = p.v] /\ fu' = [fu EXCEPT ![slot] = [s |-> p.v, k |-> "u"]]
     \/ p.o = "wset" /\ wr[oth] # 0 /\ Fin(t, "ok") /\ wr' = [wr EXCEPT ![oth] = 0]      \* b: 0 the future of the slot, 1 exception, 2 abandoned
        /\ LET k == wr[oth]  j == fu[slot].s IN
           /\ fu' = IF p.b = 0 THEN [fu EXCEPT ![slot] = None] ELSE fu
           /\ ss' = CASE p.b = 1 -> DoneIn(ss, k, "exc", p.v, t)
                      [] p.b = 2 -> DoneIn(ss, k, "broken", 0, t)
                      [] j = 0 -> DoneIn(ss, k, "uninit", 0, t)
                      [] ss[j].done -> [ss EXCEPT ![k].par = <<j>>, ![k].st = "go", ![k].who = t]
                      [] OTHER -> [ss EXCEPT ![k].par = <<j>>]

\* ---- running functions -----------------------------------------------------------------------------------
Start(t, k, r, v) ==
  /\ k \in DOMAIN ss /\ ss[k].st = "go" /\ ss[k].who = t /\ ss[k].kd \in {"t", "a", "c"}
  /\ IF ss[k].kd = "c" THEN ss[ss[k].par[1]].done /\ r = ss[ss[k].par[1]].r /\ v = Seen(ss[k].par[1]) ELSE r = "" /\ v = 0
  /\ ss' = [ss EXCEPT ![k].st = "run"]
  /\ UNCHANGED <<pr, tk, fu, vf, wr, ended, tls, pend, off, jt, cfg>>
End(t, k, r, v) ==
  /\ k \in DOMAIN ss /\ ss[k].st = "run" /\ ss[k].who = t
  /\ ss' = [ss EXCEPT ![k].st = "end", ![k].r = r, ![k].v = v]
  /\ UNCHANGED <<pr, tk, fu, vf, wr, ended, tls, pend, off, jt, cfg>>
Complete(k) ==
  /\ \/ ss[k].st = "end" /\ ss' = (IF ss[k].pol = "exit" THEN [ss EXCEPT ![k].con = ss[k].who, ![k].st = "fin"] ELSE DoneIn(ss, k, ss[k].r, ss[k].v, ss[k].who))
     \/ ss[k].kd = "f" /\ ss[k].st = "go"
        /\ LET j == ss[k].par[1] IN ss' = DoneIn(ss, k, "ok", IF ss[j].r = "ok" THEN ss[j].v ELSE k, ss[k].who)
     \/ ss[k].kd = "w" /\ ss[k].st = "go" /\ ss' = DoneIn(ss, k, ss[ss[k].par[1]].r, ss[ss[k].par[1]].v, ss[k].who)   \* follows the inner one
     \/ ss[k].st = "trig" /\ ss[ss[k].par[1]].done /\ ss' = [ss EXCEPT ![k].st = "go"]
     \/ ss[k].kd = "l" /\ ss[k].st = "go" /\ (\A i \in 1..Len(ss[k].par) : ss[ss[k].par[i].s].done) /\ ss' = DoneIn(ss, k, "ok", 0, 0)
     \/ ss[k].kd = "y" /\ ss[k].st = "go" /\ (\E i \in 1..Len(ss[k].par) : ss[ss[k].par[i].s].done) /\ ss' = DoneIn(ss, k, "ok", 0, 0)
  /\ UNCHANGED <<pr, tk, fu, vf, wr, ended, tls, pend, off, jt, cfg>>
\* states whose completion thread t waits for, and which it has to run itself if they are deferred
Wanted(t) ==
  LET p == pend[t] IN
  (IF p.st = "wait" /\ p.o \in {"fget", "fwait", "fgor", "fexp", "wall", "whall", "whany"} /\ p.w # 0 THEN {p.w} ELSE {})
  \cup {ss[k].par[1] : k \in {j \in DOMAIN ss : ss[j].st = "trig" /\ ss[j].who = t}}
Trigger(t) ==
  \E k \in Wanted(t) : /\ ss[k].st = "lazy"
                       /\ ss' = [ss EXCEPT ![k].st = IF ss[k].kd = "a" THEN "go" ELSE "trig", ![k].who = t]
                       /\ UNCHANGED <<pr, tk, fu, vf, wr, ended, tls, pend, off, jt, cfg>>

\* ---- futures ------------------------------------------------------------------------------------------------
Consume(s, k) == IF k = "u" /\ cfg.inv THEN [ss EXCEPT ![s].val = FALSE] ELSE ss
Peek(t) ==
  /\ pend[t].st = "call" /\ UNCHANGED <<ss, pr, tk, wr, ended, tls, off, jt, cfg>>
  /\ LET p == pend[t]  s == IF p.a \in Futs THEN fu[p.a].s ELSE 0  B(b) == IF b THEN "true" ELSE "false" IN
     \/ p.o = "fvalid" /\ Fin(t, B(s # 0 /\ ss[s].val)) /\ UNCHANGED <<fu, vf>>
     \/ p.o = "fready" /\ Fin(t, B(s # 0 /\ ss[s].done)) /\ UNCHANGED <<fu, vf>>
     \/ p.o = "fhasv" /\ Fin(t, B(s # 0 /\ ss[s].done /\ ss[s].r = "ok")) /\ UNCHANGED <<fu, vf>>
     \/ p.o = "fhase" /\ Fin(t, B(s # 0 /\ ss[s].done /\ ss[s].r # "ok")) /\ UNCHANGED <<fu, vf>>
     \/ p.o = "fst" /\ Fin(t, IF s = 0 THEN "uninit" ELSE IF ss[s].done THEN "ready" ELSE "waiting") /\ UNCHANGED <<fu, vf>>
     \/ p.o = "vready" /\ vf.s # 0 /\ Fin(t, B(ss[vf.s].done)) /\ UNCHANGED <<fu, vf>>
     \/ p.o = "fmove" /\ p.a # p.b /\ Fin(t, "ok") /\ fu' = [fu EXCEPT ![p.b] = fu[p.a], ![p.a] = None] /\ UNCHANGED vf
     \/ p.o = "fswap" /\ Fin(t, "ok") /\ fu' = [fu EXCEPT ![p.b] = fu[p.a], ![p.a] = fu[p.b]] /\ UNCHANGED vf
     \/ p.o = "fshare" /\ Fin(t, "ok") /\ fu' = [fu EXCEPT ![p.a] = None, ![p.b] = IF s = 0 THEN None ELSE [s |-> s, k |-> "s"]] /\ UNCHANGED vf
     \/ p.o = "scopy" /\ fu[p.a].k = "s" /\ Fin(t, "ok") /\ fu' = [fu EXCEPT ![p.b] = fu[p.a]] /\ UNCHANGED vf
     \/ p.o = "fdtor" /\ Fin(t, "ok") /\ fu' = [fu EXCEPT ![p.a] = None] /\ UNCHANGED vf
Members(m) == {f \in Futs : Bit(m, 2 ^ f)}
RECURSIVE Seq1(_)
Seq1(S) == IF S = {} THEN <<>> ELSE LET f == CHOOSE x \in S : \A y \in S : x <= y IN <<[f |-> f, s |-> fu[f].s, k |-> fu[f].k]>> \o Seq1(S \ {f})
Waits == {"fget", "fwait", "fgor", "fexp", "ftw", "wany", "wall", "vwait", "vget", "vtw", "whall", "whany"}
Begin(t) ==
  /\ pend[t].st = "call" /\ pend[t].o \in Waits /\ UNCHANGED <<pr, tk, wr, ended, tls, off, jt, cfg>>
  /\ LET p == pend[t] IN
     \/ p.o \in {"fget", "fgor"} /\ UNCHANGED <<fu, vf>>
        /\ LET h == fu[p.a] IN
           IF h.s = 0 \/ (h.k = "u" /\ ~ss[h.s].val) THEN Fin(t, "uninit") /\ UNCHANGED ss
           ELSE ss' = Consume(h.s, h.k) /\ pend' = [pend EXCEPT ![t].st = "wait", ![t].w = h.s]
     \/ p.o = "fwait" /\ UNCHANGED <<ss, fu, vf>>
        /\ IF fu[p.a].s = 0 THEN Fin(t, "uninit") ELSE pend' = [pend EXCEPT ![t].st = "wait", ![t].w = fu[p.a].s]
     \/ p.o = "fexp" /\ UNCHANGED <<ss, fu, vf>>
        /\ IF fu[p.a].s = 0 THEN Fin(t, "none") ELSE pend' = [pend EXCEPT ![t].st = "wait", ![t].w = fu[p.a].s]
     \/ p.o = "ftw" /\ UNCHANGED <<ss, fu, vf>>
        /\ LET s == fu[p.a].s IN
           IF s = 0 THEN Fin(t, "uninit") ELSE IF ss[s].st = "lazy" THEN Fin(t, IF Old(p) THEN "false" ELSE "deferred")
           ELSE pend' = [pend EXCEPT ![t].st = "wait", ![t].w = s]
     \/ p.o \in {"vwait", "vtw"} /\ vf.s # 0 /\ pend' = [pend EXCEPT ![t].st = "wait", ![t].w = vf.s] /\ UNCHANGED <<ss, fu, vf>>
     \/ p.o = "vget" /\ vf.s # 0 /\ pend' = [pend EXCEPT ![t].st = "wait", ![t].w = vf.s] /\ UNCHANGED <<ss, fu, vf>>
     \/ p.o \in {"wany", "wall"} /\ pend' = [pend EXCEPT ![t].st = "wait", ![t].i = 1, ![t].w = IF p.o = "wall" /\ Seq1(Members(p.a)) # <<>> THEN Seq1(Members(p.a))[1].s ELSE 0] /\ UNCHANGED <<ss, fu, vf>>
     \/ p.o \in {"whall", "whany"} /\ vf.s = 0
        /\ LET m == Seq1(Members(p.a)) IN
           /\ ss' = Add(p.v, [State0 EXCEPT !.kd = IF p.o = "whall" THEN "l" ELSE "y", !.par = m, !.st = "no"])
           /\ vf' = [s |-> p.v, m |-> m] /\ fu' = [f \in Futs |-> IF f \in Members(p.a) THEN None ELSE fu[f]]
           /\ pend' = [pend EXCEPT ![t].st = "wait", ![t].i = 1, ![t].w = IF p.o = "whall" /\ m # <<>> THEN m[1].s ELSE 0]
Out(t, s) == Res(t, ss[s].r, Seen(s))
Advance(t, m) == LET i == pend[t].i IN IF i < Len(m) THEN pend' = [pend EXCEPT ![t].i = i + 1, ![t].w = m[i + 1].s] ELSE Fin(t, "ok")
Finish(t, now) ==
  /\ pend[t].st = "wait" /\ UNCHANGED <<pr, tk, wr, ended, tls, off, jt, cfg>>
  /\ LET p == pend[t]  s == p.w IN
     \/ p.o = "fget" /\ ss[s].done /\ Out(t, s) /\ UNCHANGED <<ss, fu, vf>>
     \/ p.o = "fgor" /\ ss[s].done /\ (IF ss[s].r = "ok" THEN Out(t, s) ELSE Res(t, "ok", p.v)) /\ UNCHANGED <<ss, fu, vf>>
     \/ p.o = "fwait" /\ ss[s].done /\ Fin(t, "ok") /\ UNCHANGED <<ss, fu, vf>>
     \/ p.o = "fexp" /\ ss[s].done /\ (IF ss[s].r = "ok" THEN Fin(t, "none") ELSE Out(t, s)) /\ UNCHANGED <<ss, fu, vf>>
     \/ p.o \in {"ftw", "vtw"} /\ UNCHANGED <<ss, fu, vf>>
        /\ IF ss[s].done THEN Fin(t, IF Old(p) THEN "true" ELSE "ready") ELSE Reached(p, now) /\ Fin(t, IF Old(p) THEN "false" ELSE "timeout")
     \/ p.o = "vwait" /\ ss[s].done /\ Fin(t, "ok") /\ UNCHANGED <<ss, fu, vf>>
     \/ p.o = "vget" /\ ss[s].done /\ Fin(t, "ok") /\ UNCHANGED ss /\ vf' = [s |-> 0, m |-> <<>>]
        /\ fu' = [f \in Futs |-> IF \E i \in 1..Len(vf.m) : vf.m[i].f = f THEN LET i == CHOOSE i \in 1..Len(vf.m) : vf.m[i].f = f IN [s |-> vf.m[i].s, k |-> vf.m[i].k] ELSE fu[f]]
     \/ p.o = "wall" /\ UNCHANGED <<ss, fu, vf>> /\ (IF p.w = 0 THEN Fin(t, "ok") ELSE ss[s].done /\ Advance(t, Seq1(Members(p.a))))
     \/ p.o = "wany" /\ UNCHANGED <<ss, fu, vf>> /\ (\E f \in Members(p.a) : fu[f].s # 0 /\ ss[fu[f].s].done /\ Res(t, "ok", f))
     \* when_all runs the deferred ones
     \/ p.o = "whall" /\ UNCHANGED <<fu, vf>>
        /\ IF p.w = 0 \/ (ss[s].st # "lazy" /\ ~(ss[s].who = t /\ ~ss[s].done) /\ p.i = Len(vf.m)) THEN Fin(t, "ok") /\ ss' = [ss EXCEPT ![p.v].st = "go"]
           ELSE ss[s].st # "lazy" /\ ~(ss[s].who = t /\ ~ss[s].done) /\ UNCHANGED ss /\ Advance(t, vf.m)
     \* when_any looks at them in order, up to the first that is ready or deferred
     \/ p.o = "whany" /\ UNCHANGED <<fu, vf>>
        /\ IF p.w # 0 THEN ss[s].st # "lazy" /\ Fin(t, "ok") /\ ss' = [ss EXCEPT ![p.v].st = "go"]
           ELSE IF p.i > Len(vf.m) \/ ss[vf.m[p.i].s].done THEN Fin(t, "ok") /\ ss' = [ss EXCEPT ![p.v].st = "go"]
           ELSE UNCHANGED ss /\ (IF ss[vf.m[p.i].s].st = "lazy" THEN pend' = [pend EXCEPT ![t].w = vf.m[p.i].s] ELSE pend' = [pend EXCEPT ![t].i = @ + 1])

\* ---- thread exit -----------------------------------------------------------------------------------------------
ThreadEnd(t) == /\ pend[t].st = "idle" /\ t \notin ended /\ ended' = ended \cup {t}
                /\ UNCHANGED <<ss, pr, tk, fu, vf, wr, tls, pend, off, jt, cfg>>
TlsDone(t) == /\ t \in ended /\ t \notin tls /\ tls' = tls \cup {t} /\ UNCHANGED <<ss, pr, tk, fu, vf, wr, ended, pend, off, jt, cfg>>
\* ready only after the thread-specific objects of the thread are gone
ExitReady(k) == /\ ss[k].con > 0 /\ ss[k].con \in ended /\ ss[k].con \in tls
                /\ ss' = DoneIn(ss, k, ss[k].r, ss[k].v, ss[k].con)
                /\ UNCHANGED <<pr, tk, fu, vf, wr, ended, tls, pend, off, jt, cfg>>

Jump(d, now) == /\ off' = off + d /\ jt' = now
                /\ pend' = [u \in Threads |-> IF pend[u].st # "idle" /\ Jumps(pend[u]) THEN [pend[u] EXCEPT !.mo = Max(@, off + d), !.hit = Reached(pend[u], now)] ELSE pend[u]]
                /\ UNCHANGED <<ss, pr, tk, fu, vf, wr, ended, tls, cfg>>
Lin(t, now) == Prom(t) \/ Task(t) \/ Make(t) \/ Peek(t) \/ Begin(t) \/ Finish(t, now) \/ Trigger(t)
Lib == \E k \in DOMAIN ss : Complete(k) \/ ExitReady(k)
\* a thread returns only when it has run everything it was the one to run
Owes(t) == \E k \in DOMAIN ss : ss[k].who = t /\ ss[k].st \in {"trig", "go", "run", "end"}
Ret(t, o, r, x) == /\ pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r /\ pend[t].x = x /\ ~Owes(t)
                   /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<ss, pr, tk, fu, vf, wr, ended, tls, off, jt, cfg>>
InTime(p, now, lim, early) ==
  IF ~Foreign(p) THEN (now < p.v /\ lim <= p.v) \/ (early /\ Rel(p))
  ELSE LET at == Max(p.v - ClkOff(p), Max(IF Jumps(p) THEN jt ELSE 0, p.t0)) IN lim <= at + Slack \/ early
Running(t) == \E k \in DOMAIN ss : ss[k].who = t /\ ss[k].st = "run"
Blocked(t) == LET p == pend[t] IN
  /\ p.st = "wait" /\ ~Running(t)
  /\ IF \E k \in DOMAIN ss : ss[k].who = t /\ ss[k].st = "trig"
     THEN \A k \in Wanted(t) : ~ss[k].done /\ ss[k].st # "lazy"
     ELSE CASE p.o = "wany" -> \A f \in Members(p.a) : ~ss[fu[f].s].done
            [] p.o \in {"whall", "whany"} -> FALSE
            [] p.w = 0 -> FALSE
            [] OTHER -> ~ss[p.w].done /\ (ss[p.w].st # "lazy" \/ p.o \in {"ftw"})
\* library work that does not depend on anything that is still to come
MemberDone(k, i) == ss[ss[k].par[i].s].done
Due(k) ==
  LET c == ss[k] IN
  CASE c.st = "end" -> TRUE
    [] c.st = "go" /\ c.kd = "l" -> \A i \in 1..Len(c.par) : MemberDone(k, i)
    [] c.st = "go" /\ c.kd = "y" -> \E i \in 1..Len(c.par) : MemberDone(k, i)
    \* a function that a thread has to run after the one which it is running
    [] c.st = "go" -> IF c.who # 0 THEN ~Running(c.who) ELSE ~(c.pol \in {"sync", "exec"} /\ Running(0))
    [] OTHER -> FALSE
Quiet(now, lim, early, end) ==
  /\ \A t \in Threads : /\ pend[t].st = "idle" \/ Running(t) \/ Blocked(t)
                        /\ (pend[t].st # "idle" /\ Timed(pend[t]) /\ ~Running(t)) => (~end /\ InTime(pend[t], now, lim, early))
  /\ \A k \in DOMAIN ss : /\ ~Due(k) /\ (ss[k].st = "run" => ~end)
                          /\ ss[k].con > 0 => ~(ss[k].con \in ended /\ ss[k].con \in tls)
=============================================================================
