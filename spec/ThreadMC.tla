------------------------------ MODULE ThreadMC ------------------------------
EXTENDS Thread, Json
CONSTANTS Roots, Term, Ops, MaxOps, MaxNow, Depth
VARIABLES now, left, hist
all == <<vars, now, left, hist>>
Init == BInit(Roots, Term) /\ now = 0 /\ left = [k \in Threads |-> MaxOps] /\ hist = <<>>
Fresh == {k \in Threads : st[k] = "none" /\ \A j \in Threads : (st[j] = "none" => k <= j)}
C(a, b, v, c) == [a |-> a, b |-> b, v |-> v, c |-> c]     \* c: the form the driver takes (third argument)
Known == {h \in Handles : hd[h] # 0}
TBits(o) == IF o \in {"sleep", "nsleep", "tj", "wait"} THEN 1 ELSE 0
\* calls a thread may make; lim restricts to the interesting ones for generation
Cands(t, o) ==
  CASE o = "create" -> {C(h, k, 0, 0) : h \in Handles, k \in Fresh}
    [] o = "dcreate" -> {C(h, k, 1, 2) : h \in Handles, k \in Fresh}
    [] o = "fcreate" -> {C(h, k, 2 * f, f) : h \in Handles, k \in Fresh, f \in {1, 2, 3}}
    [] o = "gcreate" -> {C(0, k, 0, 0) : k \in Fresh}
    [] o = "fgcreate" -> {C(0, k, 2 * f, f) : k \in Fresh, f \in {1, 2}}
    [] o \in {"join", "detach", "joinable", "native", "getid", "dtor", "interrupt", "ireq"} -> {C(h, 0, 0, 0) : h \in Handles}
    [] o = "tj" -> {C(h, 1, now + 1, 0) : h \in Handles}
    [] o \in {"sleep", "nsleep"} -> {C(0, 1, now + 1, 0)}
    [] o = "wait" -> {C(x, 1, now + 1, 0) : x \in Flags}
    [] o = "uwait" -> {C(x, 0, 0, 8) : x \in Flags}
    [] o \in {"swap", "move"} -> {C(h, g, 0, 0) : h \in Handles, g \in Handles}
    [] o = "scope" -> {C(h, b, 0, 0) : h \in Handles, b \in 0..2}
    [] o \in {"note", "clear"} -> {C(x, 0, 0, 0) : x \in Flags}
    [] o = "gadd" -> {C(h, 0, 0, 0) : h \in Known}
    [] o = "grem" -> {C(h, k, 0, 0) : h \in Handles \ Known, k \in grp}
    [] o = "gtin" -> {C(0, k, 0, 0) : k \in grp}
    [] o = "atexit" -> {C(x, 0, 0, 0) : x \in {1, 2}}
    [] o = "tset" -> {C(p, v, 0, 0) : p \in Ptrs, v \in {0, 1, 2}}
    [] o \in {"tget", "trel"} -> {C(p, 0, 0, 0) : p \in Ptrs}
    [] o = "res" -> IF gs[t] # <<>> /\ gs[t][Len(gs[t])].g = "dis" THEN {C(0, 0, 0, 0)} ELSE {}
    [] o = "pop" -> IF gs[t] # <<>> THEN {C(0, 0, 0, 0)} ELSE {}
    [] o = "dis" -> IF Len(gs[t]) < 2 THEN {C(0, 0, 0, 0)} ELSE {}
    [] OTHER -> {C(0, 0, 0, 0)}
Name(o) == CASE o \in {"dcreate", "fcreate"} -> "create" [] o = "fgcreate" -> "gcreate" [] o = "uwait" -> "wait" [] OTHER -> o
\* what callers must respect: one thread at a time uses a handle; the group is not changed while it is joined
Uses(p) == IF p.st = "idle" THEN {} ELSE IF p.o \in {"swap", "move"} THEN {p.a, p.b}
           ELSE IF p.o \in {"create", "join", "tj", "detach", "joinable", "native", "getid", "dtor", "interrupt", "ireq", "scope", "gadd", "grem"} THEN {p.a} ELSE {}
Busy(h) == \E u \in Threads : h \in Uses(pend[u])
Creating(k) == \E u \in Threads : pend[u].st # "idle" /\ pend[u].o \in {"create", "gcreate"} /\ pend[u].b = k
GOps == {"gcreate", "gadd", "grem", "gjoin", "gint", "gin", "gtin"}
GBusy(o) == \E u \in Threads : pend[u].st # "idle" /\ pend[u].o \in GOps /\ (o \in {"gjoin", "grem", "gtin"} \/ pend[u].o \in {"gjoin", "grem", "gtin"})
Allowed(t, o, x) ==
  /\ (Uses([Idle EXCEPT !.st = "call", !.o = Name(o), !.a = x.a, !.b = x.b]) \cap {h \in Handles : Busy(h)}) = {}
  /\ (o \in GOps \cup {"fgcreate"}) => ~GBusy(o)
  /\ o \in {"create", "dcreate", "fcreate", "gcreate", "fgcreate"} => ~Creating(x.b)
  /\ o \in {"swap", "move"} => x.a # x.b
  /\ ~(o = "scope" /\ x.b # 2 /\ hd[x.a] = t)
DoCall(t, o, x) == Allowed(t, o, x) /\ (st[t] = "run" \/ o \in {"atexit", "tset", "tget"}) /\ Call(t, Name(o), x.a, x.b, x.v, now)
Auto(k) == \/ Start(k) \/ Done(k)
           \/ \E id \in {1, 2} : Cb(k, id)
           \/ \E p \in Ptrs, v \in {1, 2} : Clean(k, p, v)
Dead == \E t \in Threads : Terminated(t)
Next == /\ ~Dead
        /\ \/ \E t \in Threads :
                \/ left[t] > 0 /\ (\E o \in Ops : \E x \in Cands(t, o) : DoCall(t, o, x)) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<now, hist>>
                \/ (Lin(t, now) \/ Auto(t) \/ (t > Roots /\ End(t))) /\ UNCHANGED <<now, left, hist>>
                \/ pend[t].st = "done" /\ pend[t].r # "term" /\ Ret(t, pend[t].o, pend[t].r, pend[t].v) /\ UNCHANGED <<now, left, hist>>
           \/ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, left, hist>>
\* ---- properties
OneOwner == \A k \in Threads : Cardinality({h \in Handles : hd[h] = k}) + (IF k \in gj THEN 1 ELSE 0) <= 1
RefsLive == (\A h \in Handles : hd[h] # 0 => st[hd[h]] # "none") /\ gj \subseteq grp
CleanEnd == \A k \in Threads : st[k] = "done" => Ended(k) /\ pend[k].st = "idle"
Guards == \A k \in Threads : gs[k] = <<>> => en[k] = (k > Roots)
NoStale == \A k \in Threads : st[k] = "none" => ~req[k]
\* a join that succeeds finds the thread done; an interruption is delivered only when enabled and requested, and consumes the request
Sound == [][\A t \in Threads : (pend[t].st # "done" /\ pend'[t].st = "done") =>
            LET p == pend[t]  r == pend'[t].r IN
            /\ (p.o \in {"join", "tj"} /\ r \in {"ok", "true"}) => st[hd[p.a]] = "done" /\ hd'[p.a] = 0
            /\ (p.o = "scope" /\ p.b # 2 /\ hd[p.a] # 0) => st[hd[p.a]] = "done"
            /\ (p.o = "gjoin" /\ r = "ok") => \A k \in gj : st[k] = "done"
            /\ r = "int" => en[t] /\ req[t] /\ ~req'[t]
            /\ (r = "false" /\ p.o \in {"tj", "wait"}) => Reached(p, now)
            /\ (r = "ok" /\ p.o \in {"sleep", "nsleep"}) => Reached(p, now)]_all
FairSpec == Init /\ [][Next]_all /\ \A t \in Threads : WF_all(~Dead /\ (Lin(t, now) \/ Auto(t) \/ (pend[t].st = "done" /\ pend[t].r # "term" /\ Ret(t, pend[t].o, pend[t].r, pend[t].v))) /\ UNCHANGED <<now, left, hist>>)
Live == \A t \in Threads : /\ [](st[t] \in {"new", "exit"} => <>(st[t] \notin {"new", "exit"} \/ Dead))
                           /\ [](pend[t].st = "wait" /\ Cond(t, pend[t]) => <>(pend[t].st # "wait" \/ Dead \/ ~Cond(t, pend[t])))
                           /\ [](pend[t].st = "wait" /\ pend[t].o \in Points /\ Throws(t) => <>(pend[t].st # "wait" \/ Dead))
\* ---- generation
CanGo(t) == Start(t) \/ Done(t) \/ Lin(t, now)
MustGo(t) == pend[t].st # "done" /\ ENABLED (Lin(t, now) \/ Auto(t))
Settled == \A t \in Threads : pend[t].st # "done" /\ ~MustGo(t)
Log(h) == hist' = Append(hist, h)
GNext == /\ ~Dead
         /\ \/ ~Settled /\ UNCHANGED <<now, left, hist>> /\ \E t \in Threads :
                 /\ \A u \in Threads : u < t => ~(MustGo(u) \/ pend[u].st = "done")
                 /\ \/ Lin(t, now) \/ Auto(t)
                    \/ (pend[t].st = "done" /\ pend[t].r # "term" /\ Ret(t, pend[t].o, pend[t].r, pend[t].v))
            \/ Settled /\ UNCHANGED <<now, left>> /\ (\E t \in Threads, o \in Ops : \E x \in Cands(t, o) : DoCall(t, o, x) /\ Log(<<t, o, x.a, IF Bit(x.b, 1) /\ TBits(o) = 1 THEN 1000 ELSE x.b, x.c>>))
            \/ Settled /\ UNCHANGED <<now, left>> /\ (\E t \in Threads : t > Roots /\ End(t) /\ Log(<<t, "self", 0, 0, 0>>))
            \/ Settled /\ now < MaxNow /\ (\E t \in Threads : pend[t].st = "wait" /\ Timed(pend[t]))
               /\ now' = now + 1 /\ Log(<<0, "", 0, 0, 0>>) /\ UNCHANGED <<vars, left>>
GView == <<vars, now>>
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
