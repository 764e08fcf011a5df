------------------------------ MODULE FutureMC ------------------------------
EXTENDS Future, Json
CONSTANTS Inv, Lazy, Ops, MaxOps, MaxNow, Depth
VARIABLES now, left, nid, hist
all == <<vars, now, left, nid, hist>>
Init == FInit([inv |-> Inv, lazy |-> Lazy, void |-> FALSE]) /\ now = 0 /\ left = [t \in Threads |-> MaxOps] /\ nid = 0 /\ hist = <<>>
C(a, b, v, d) == [a |-> a, b |-> b, v |-> v, d |-> d]     \* d: <<a, b, c>> of the driver's operation
Has(f) == fu[f].s # 0
U(f) == Has(f) /\ fu[f].k = "u"
Deferred(f) == Has(f) /\ ss[fu[f].s].pol = "defer"
Free(f) == ~Has(f)
PolNo(p) == CASE p = "async" -> 0 [] p = "defer" -> 1 [] p = "sync" -> 4 [] OTHER -> 5
Masks(X) == {2 ^ p[1] + 2 ^ p[2] : p \in {q \in X \X X : q[1] < q[2]}} \cup {2 ^ x : x \in X}
N == nid + 1
Cands(o) ==
  CASE o \in {"pnew"} -> {C(p, 0, N, <<p, 0, 0>>) : p \in {q \in Proms : ~pr[q].x}}
    [] o = "pget" -> {C(p, f, N, <<p, f, 0>>) : p \in {q \in Proms : pr[q].x}, f \in {g \in Futs : Free(g)}}
    [] o \in SetOps -> {C(p, N, N, <<p, 0, 0>>) : p \in {q \in Proms : pr[q].x}}
    [] o = "pnot" -> {C(p, 0, 0, <<p, 0, 0>>) : p \in {q \in Proms : pr[q].x /\ pr[q].s # 0 /\ ss[pr[q].s].con = -1}}
    [] o \in {"pmove", "pswap"} -> {C(p, q, 0, <<p, q, 0>>) : p \in {q \in Proms : pr[q].x}, q \in {q \in Proms : o = "pmove" \/ pr[q].x}}
    [] o = "pdtor" -> {C(p, 0, 0, <<p, 0, 0>>) : p \in {q \in Proms : pr[q].x}}
    [] o = "tnew" -> {C(k, 0, N, <<k, 0, 0>>) : k \in {q \in Tasks : ~tk[q].x}}
    [] o = "tget" -> {C(k, f, 0, <<k, f, 0>>) : k \in {q \in Tasks : tk[q].x}, f \in {g \in Futs : Free(g)}}
    [] o \in {"trun", "trunx", "tvalid", "tdtor"} -> {C(k, 0, 0, <<k, 0, 0>>) : k \in {q \in Tasks : tk[q].x}}
    [] o \in {"tmove", "tswap"} -> {C(k, q, 0, <<k, q, 0>>) : k \in {q \in Tasks : tk[q].x}, q \in {q \in Tasks : o = "tmove" \/ tk[q].x}}
    [] o \in {"anew", "dnew"} -> {C(f, IF o = "anew" THEN 0 ELSE 1, N, <<f, IF o = "anew" THEN 0 ELSE 1, 0>>) : f \in {g \in Futs : Free(g)}}
    [] o = "mkr" -> {C(f, b, N, <<f, b, 0>>) : f \in {g \in Futs : Free(g)}, b \in {0, 1, 2}}
    [] o \in {"then", "dthen", "sthen", "ithen"} ->
         LET b == CASE o = "then" -> 0 [] o = "dthen" -> 1 [] o = "sthen" -> 4 [] OTHER -> 5 IN
         {C(f + 100 * g, b, N, <<f, g, b>>) : f \in {x \in Futs : Has(x) /\ (fu[x].k = "s" \/ ss[fu[x].s].val) /\ (Deferred(x) => b \in {1, 5})}, g \in {x \in Futs : Free(x)}}
    [] o = "fallb" -> {C(f + 100 * g, 5, N, <<f, g, 0>>) : f \in {x \in Futs : U(x) /\ ss[fu[x].s].val}, g \in {x \in Futs : Free(x)}}
    [] o = "unw" -> {C(f + 100 * w, 0, N, <<f, w, 0>>) : f \in {x \in Futs : Free(x)}, w \in {y \in Wraps : wr[y] = 0}}
    [] o = "wset" -> {C(f + 100 * w, b, N, <<f, w, b>>) : w \in {y \in Wraps : wr[y] # 0}, f \in {x \in Futs : Free(x) \/ (U(x) /\ ss[fu[x].s].val /\ ~Deferred(x))}, b \in {0, 1, 2}}
    [] o \in {"fget", "fwait", "fready", "fvalid", "fhasv", "fexp", "fst"} -> {C(f, 0, 0, <<f, 0, 0>>) : f \in {x \in Futs : x = 0 \/ Has(x)}}
    [] o = "fgor" -> {C(f, 0, N, <<f, 0, 0>>) : f \in {x \in Futs : Has(x)}}
    [] o = "ftw" -> {C(f, 17, now + 1, <<f, 1000, 0>>) : f \in {x \in Futs : Has(x)}}
    [] o = "fmove" -> {C(f, g, 0, <<f, g, 0>>) : f \in {x \in Futs : U(x)}, g \in {x \in Futs : TRUE}}
    [] o = "fshare" -> {C(f, g, 0, <<f, g, 0>>) : f \in {x \in Futs : U(x) /\ ss[fu[x].s].val}, g \in {x \in Futs : Free(x)}}
    [] o = "scopy" -> {C(f, g, 0, <<f, g, 0>>) : f \in {x \in Futs : Has(x) /\ ~U(x)}, g \in {x \in Futs : Free(x)}}
    [] o = "fdtor" -> {C(f, 0, 0, <<f, 0, 0>>) : f \in {x \in Futs : Has(x)}}
    [] o = "wany" -> {C(m, 0, 0, <<m, 0, 0>>) : m \in Masks({x \in Futs : Has(x) /\ ~Deferred(x) /\ (fu[x].k = "s" \/ ss[fu[x].s].val)})}
    [] o = "wall" -> {C(m, 0, 0, <<m, 0, 0>>) : m \in Masks({x \in Futs : Has(x)})}
    [] o \in {"whall", "whany"} -> IF vf.s # 0 THEN {} ELSE {C(m, 0, N, <<m, 0, 0>>) : m \in Masks({x \in Futs : Has(x) /\ (fu[x].k = "s" \/ ss[fu[x].s].val)})}
    [] o \in {"vwait", "vready"} -> IF vf.s = 0 THEN {} ELSE {C(0, 0, 0, <<0, 0, 0>>)}
    [] o = "vget" -> IF vf.s = 0 \/ (\E i \in 1..Len(vf.m) : Has(vf.m[i].f)) THEN {} ELSE {C(0, 0, 0, <<0, 0, 0>>)}
    [] OTHER -> {}
Name(o) == CASE o = "dnew" -> "anew" [] o \in {"dthen", "sthen", "ithen"} -> "then" [] OTHER -> o
\* what callers must respect: one thread at a time uses a promise, a task or a slot (several may look at a future)
PU(p) == IF p.st = "idle" THEN {} ELSE IF p.o \in {"pmove", "pswap"} THEN {p.a, p.b} ELSE IF p.o \in {"pnew", "pget", "pnot", "pdtor"} \cup SetOps THEN {p.a} ELSE {}
TU(p) == IF p.st = "idle" THEN {} ELSE IF p.o \in {"tmove", "tswap"} THEN {p.a, p.b} ELSE IF p.o \in {"tnew", "tget", "trun", "trunx", "tdtor", "tvalid"} THEN {p.a} ELSE {}
FX(p) == IF p.st = "idle" THEN {}
         ELSE CASE p.o \in {"pget", "tget"} -> {p.b}
                [] p.o \in {"anew", "mkr", "fdtor"} -> {p.a}
                [] p.o \in {"fget", "fgor"} -> IF fu[p.a].k = "u" THEN {p.a} ELSE {}
                [] p.o \in {"then", "fallb"} -> {p.a \div 100} \cup (IF fu[p.a % 100].k = "u" THEN {p.a % 100} ELSE {})
                [] p.o \in {"unw", "wset"} -> {p.a % 100}
                [] p.o \in {"fmove", "fshare", "scopy", "fswap"} -> {p.a, p.b}
                [] p.o \in {"whall", "whany"} -> Members(p.a)
                [] p.o = "vget" -> {vf.m[i].f : i \in 1..Len(vf.m)}
                [] OTHER -> {}
FR(p) == IF p.st = "idle" THEN {} ELSE FX(p) \cup
         (CASE p.o \in {"fget", "fgor", "fwait", "fready", "fvalid", "fhasv", "fexp", "fst", "ftw"} -> {p.a}
            [] p.o \in {"then", "fallb"} -> {p.a % 100}
            [] p.o \in {"wany", "wall"} -> Members(p.a)
            [] OTHER -> {})
VX(p) == p.st # "idle" /\ p.o \in {"whall", "whany", "vget"}
VR(p) == p.st # "idle" /\ p.o \in {"whall", "whany", "vget", "vwait", "vready"}
WU(p) == IF p.st # "idle" /\ p.o \in {"unw", "wset"} THEN {p.a \div 100} ELSE {}
Allowed(t, o, x) ==
  LET p == [Idle EXCEPT !.st = "call", !.o = Name(o), !.a = x.a, !.b = x.b] IN
  /\ \A u \in Threads : LET q == pend[u] IN
       /\ PU(p) \cap PU(q) = {} /\ TU(p) \cap TU(q) = {} /\ WU(p) \cap WU(q) = {}
       /\ FX(p) \cap FR(q) = {} /\ FR(p) \cap FX(q) = {}
       /\ ~(VX(p) /\ VR(q)) /\ ~(VR(p) /\ VX(q))
  /\ o \in {"pmove", "pswap", "tmove", "tswap", "fmove"} => x.a # x.b
Ids == {"pnew", "pget", "tnew", "anew", "dnew", "mkr", "then", "dthen", "sthen", "ithen", "fallb", "unw", "wset", "fgor", "whall", "whany"} \cup SetOps
DoCall(t, o, x) == t \notin ended /\ Allowed(t, o, x) /\ Call(t, Name(o), x.a, x.b, x.v, now) /\ nid' = IF o \in Ids THEN N ELSE nid
Throws(k) == k % 3 = 0
RunF(k) == \/ ss[k].st = "go" /\ ss[k].kd \in {"t", "a", "c"}
              /\ (IF ss[k].kd = "c" THEN ss[ss[k].par[1]].done /\ Start(ss[k].who, k, ss[ss[k].par[1]].r, Seen(ss[k].par[1])) ELSE Start(ss[k].who, k, "", 0))
           \/ ss[k].st = "run" /\ End(ss[k].who, k, IF Throws(k) THEN "exc" ELSE "ok", k)
RetAny(t) == pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r, pend[t].x)
Step(t) == Lin(t, now) \/ RetAny(t) \/ TlsDone(t)
LibStep == Lib \/ \E k \in DOMAIN ss : RunF(k)
Next == \/ \E t \in Threads :
             \/ left[t] > 0 /\ (\E o \in Ops : \E x \in Cands(o) : DoCall(t, o, x)) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<now, hist>>
             \/ (Step(t) \/ (left[t] = 0 /\ ThreadEnd(t))) /\ UNCHANGED <<now, left, nid, hist>>
        \/ LibStep /\ UNCHANGED <<now, left, nid, hist>>
        \/ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, left, nid, hist>>
\* ---- properties
S == DOMAIN ss
Owner(k) == {<<"p", q>> : q \in {q \in Proms : pr[q].s = k}} \cup {<<"t", q>> : q \in {q \in Tasks : tk[q].s = k}} \cup {<<"w", q>> : q \in {q \in Wraps : wr[q] = k}}
OneOwner == \A k \in S : Cardinality(Owner(k)) <= 1
OneFuture == \A k \in S : Cardinality({f \in Futs : fu[f].s = k /\ fu[f].k = "u"}) <= 1
Broken == \A k \in S : (ss[k].done /\ ss[k].r = "broken" /\ ss[k].kd \in {"p", "t"}) => Owner(k) = {}
NoOrphan == \A k \in S : (ss[k].kd = "p" /\ Owner(k) = {} /\ ss[k].con # -1) => (ss[k].done \/ ss[k].con > 0)
AtExit == \A k \in S : ss[k].con # 0 => ~ss[k].done
AfterParent == \A k \in S : (ss[k].kd = "c" /\ ss[k].st \in {"run", "end", "fin"} /\ ss[k].r # "broken") => ss[ss[k].par[1]].done
LazyRuns == \A k \in S : (ss[k].pol = "defer" /\ ss[k].st # "lazy") => ss[k].who \in Threads
Sets == \A k \in S : ss[k].done => ss[k].r # "" /\ ss[k].st = "fin"
\* an outcome is final; a value is seen only as it was set; what is reported ready is ready
Final == [][/\ S \subseteq DOMAIN ss'
            /\ \A k \in S : ss[k].done => ss'[k].done /\ ss'[k].r = ss[k].r /\ ss'[k].v = ss[k].v]_all
Sound == [][\A t \in Threads : (pend[t].st # "done" /\ pend'[t].st = "done") =>
            LET p == pend[t]  q == pend'[t] IN
            /\ p.o = "fget" /\ q.r # "uninit" => ss[p.w].done /\ q.r = ss[p.w].r /\ q.x = ss[p.w].v
            /\ p.o \in {"fwait", "vwait"} /\ q.r = "ok" => ss[p.w].done
            /\ p.o = "ftw" /\ q.r = "timeout" => Reached(p, now)
            /\ p.o = "wall" => \A f \in Members(p.a) : ss[fu[f].s].done
            /\ p.o = "vget" => \A i \in 1..Len(vf.m) : ss[vf.s].kd = "l" => ss[vf.m[i].s].done
            /\ p.o \in SetOps /\ q.r = "ok" => (pr[p.a].s = 0 \/ ~Sat(pr[p.a].s))
            /\ p.o \in {"trun", "trunx"} /\ q.r = "ok" => ss[tk[p.a].s].st = "no"]_all
FairSpec == Init /\ [][Next]_all /\ WF_all(LibStep /\ UNCHANGED <<now, left, nid, hist>>)
            /\ \A t \in Threads : WF_all(Step(t) /\ UNCHANGED <<now, left, nid, hist>>) /\ WF_all(left[t] = 0 /\ ThreadEnd(t) /\ UNCHANGED <<now, left, nid, hist>>)
MayWait(t) == LET p == pend[t] IN p.st = "wait" /\ (IF p.o = "wany" THEN \A f \in Members(p.a) : ~ss[fu[f].s].done ELSE p.w # 0 /\ ~ss[p.w].done)
Live == /\ \A t \in Threads : <>[](pend[t].st = "idle" \/ MayWait(t))
        /\ \A k \in 1..3 : <>[](k \in S => ss[k].st \notin {"run", "end"} /\ ~(ss[k].st = "go" /\ ss[k].kd \in {"t", "a", "c", "f", "w"}) /\ ~(ss[k].con > 0 /\ ss[k].con \in ended))
\* ---- generation
AutoT(t) == Lin(t, now) \/ RetAny(t) \/ TlsDone(t)
Ready(t) == ENABLED AutoT(t)
LibGo == Lib \/ \E k \in DOMAIN ss : RunF(k)
Log(h) == hist' = Append(hist, h)
GNext == IF ENABLED LibGo THEN LibGo /\ UNCHANGED <<now, left, nid, hist>>
         ELSE IF \E t \in Threads : Ready(t)
         THEN \E t \in Threads : Ready(t) /\ (\A u \in Threads : u < t => ~Ready(u)) /\ AutoT(t) /\ UNCHANGED <<now, left, nid, hist>>
         ELSE \/ UNCHANGED <<now, left>> /\ (\E t \in Threads, o \in Ops : \E x \in Cands(o) : DoCall(t, o, x) /\ Log(<<t, o, x.d[1], x.d[2], x.d[3]>>))
              \/ UNCHANGED <<now, left, nid>> /\ (\E t \in Threads : t # 1 /\ ThreadEnd(t) /\ (\E k \in S : ss[k].con = t) /\ Log(<<t, "end", 0, 0, 0>>))
              \/ now < MaxNow /\ (\E t \in Threads : pend[t].st = "wait" /\ Timed(pend[t])) /\ now' = now + 1 /\ Log(<<0, "", 0, 0, 0>>) /\ UNCHANGED <<vars, left, nid>>
GView == <<vars, now>>
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
