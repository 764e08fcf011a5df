------------------------------- MODULE QueueMC -------------------------------
(* Exhaustive exploration of Queue with arbitrary clients, and generation of    *)
(* test histories that cover the transitions of its quiescent state graph.      *)
EXTENDS Queue, Json
CONSTANTS Kind, Cap, Sys, Ops, MaxOps, MaxNow, Depth
VARIABLES now, left, nid, ins, outs, hist
all == <<vars, now, left, nid, ins, outs, hist>>
Init == /\ QInit(Kind, Cap, Sys) /\ now = 0 /\ left = [t \in Threads |-> MaxOps] /\ nid = 0 /\ ins = <<>> /\ outs = <<>> /\ hist = <<>>
N == nid + 1
C(a, b, v, d) == [a |-> a, b |-> b, v |-> v, d |-> d]
\* time unit of the model: one unit is 1000 us in generated histories
Vals == CASE Kind = "prio" -> {1, 2} [] Kind = "timed" -> {0, 1, 2} [] OTHER -> {0}
PushV(x, b) == IF Kind = "timed" THEN now + x ELSE x
Cands(o) ==
  CASE o \in PushOps -> {C(N, IF Kind = "timed" /\ x > 0 THEN 16 ELSE 0, PushV(x, 0), <<IF Kind = "timed" THEN x * 1000 ELSE x, 0>>) : x \in Vals}
    [] o \in {"xpush", "xbpush"} -> {C(N, 64, 0, <<0, 1>>)}
    [] o = "wpull" -> {C(0, 17, now + d, <<d * 1000, 0>>) : d \in {0, 1}}
    [] o = "int" -> {C(u, 0, 0, <<u, 0>>) : u \in Threads}
    [] OTHER -> {C(0, 0, 0, <<0, 0>>)}
Name(o) == CASE o = "xpush" -> "tpush" [] o = "xbpush" -> "push" [] OTHER -> o
DoCall(t, o, x) == Call(t, Name(o), x.a, x.b, x.v, now) /\ nid' = IF Name(o) \in PushOps THEN N ELSE nid
Track(t) == /\ ins' = (IF pend[t].o \in PushOps /\ pend[t].st # "done" /\ pend'[t].st = "done" /\ pend'[t].r = "ok" THEN Append(ins, pend[t].a) ELSE ins)
            /\ outs' = (IF pend[t].o \in PullOps /\ pend'[t].st = "done" /\ pend'[t].r = "ok" THEN Append(outs, pend'[t].x)
                         ELSE IF pend[t].o = "drain" THEN outs \o [i \in DOMAIN q |-> q[i].id] ELSE outs)
Next == \/ \E t \in Threads :
             \/ left[t] > 0 /\ (\E o \in Ops : \E x \in Cands(o) : DoCall(t, o, x)) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<now, ins, outs, hist>>
             \/ Lin(t, now) /\ Track(t) /\ UNCHANGED <<now, left, nid, hist>>
             \/ pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r, pend[t].x) /\ UNCHANGED <<now, left, nid, ins, outs, hist>>
        \/ now < MaxNow /\ now' = now + 1 /\ UNCHANGED <<vars, left, nid, ins, outs, hist>>
\* ---- properties
Range(s) == {s[i] : i \in DOMAIN s}
Ids == {q[i].id : i \in DOMAIN q}
\* nothing is lost, duplicated or invented
Conserve == /\ Range(ins) = Range(outs) \cup Ids /\ Range(outs) \cap Ids = {}
            /\ Len(ins) = Len(outs) + Len(q) /\ Cardinality(Range(ins)) = Len(ins)
Fifo == Kind \in {"fifo", "bounded"} => outs = SubSeq(ins, 1, Len(outs)) /\ \A i \in DOMAIN q : q[i].id = ins[Len(outs) + i]
Capacity == Kind = "bounded" => Len(q) <= Cap
\* steps: what the outcome of an operation says
Sound == [][\A t \in Threads : (pend[t].st # "done" /\ pend'[t].st = "done") =>
            LET p == pend[t]  r == pend'[t].r  x == pend'[t].x IN
            /\ (p.o \in PushOps /\ r = "ok") => ~closed /\ Len(q') = Len(q) + 1
            /\ (p.o \in PushOps /\ r # "ok") => q' = q
            /\ (p.o \in PushOps /\ r = "full") => Len(q) = Cap
            /\ (p.o \in PullOps /\ r # "ok") => q' = q
            /\ (p.o \in PullOps /\ r \in {"closed", "empty", "timeout"} /\ Kind # "timed") => q = <<>>
            /\ (p.o \in PullOps /\ r = "closed") => closed
            /\ (p.o \in PullOps /\ r \in {"timeout", "notready"} /\ p.o = "wpull") => now >= p.v
            /\ (p.o \in PullOps /\ r = "ok" /\ Kind = "prio") => \A i, j \in DOMAIN q : q[i].id = x => q[j].p <= q[i].p
            /\ (p.o \in PullOps /\ r = "ok" /\ Kind = "timed") => \A i \in DOMAIN q : q[i].id = x => q[i].lo <= now
            /\ (r = "busy") => \E u \in Threads \ {t} : pend[u].st # "idle"]_all
FairSpec == Init /\ [][Next]_all /\ \A t \in Threads : WF_all((Lin(t, now) /\ Track(t) /\ UNCHANGED <<now, left, nid, hist>>)
                                                              \/ (pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r, pend[t].x) /\ UNCHANGED <<now, left, nid, ins, outs, hist>>))
\* a closed queue leaves nobody waiting; a consumer does not wait for an element that is there, a producer not for room
Live == \A t \in Threads :
          /\ [](pend[t].st = "call" /\ closed => <>(pend[t].st # "call"))
          /\ [](pend[t].st = "call" /\ pend[t].o = "pull" /\ Pick(now) # {} => <>(pend[t].st # "call" \/ Pick(now) = {}))
          /\ [](pend[t].st = "call" /\ pend[t].o = "push" /\ ~Full => <>(pend[t].st # "call" \/ Full))
\* ---- generation: one call at a time, then everything that can happen happens
Busy1(t) == pend[t].st \in {"done", "miss"} \/ (pend[t].st = "call" /\ ~(Blocked(t, now) /\ (Timed(pend[t]) => ~Reached(pend[t], now))))
Settled == \A t \in Threads : ~Busy1(t)
Log(h) == hist' = Append(hist, h)
GNext == \/ ~Settled /\ UNCHANGED <<now, left, nid, hist, ins, outs>> /\ \E t \in Threads :
              \/ Busy1(t) /\ Lin(t, now) /\ pend'[t].r # "busy" /\ pend'[t].st # "miss"
              \/ (pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r, pend[t].x))
         \/ Settled /\ UNCHANGED <<now, left, ins, outs>> /\ (\E t \in Threads, o \in Ops : \E x \in Cands(o) : DoCall(t, o, x) /\ Log(<<t, o, x.d[1], x.d[2]>>))
         \/ Settled /\ now < MaxNow /\ (\E t \in Threads : pend[t].st = "call" /\ (Timed(pend[t]) \/ (Kind = "timed" /\ q # <<>> /\ pend[t].o = "pull")))
            /\ now' = now + 1 /\ Log(<<0, "", 0, 0>>) /\ UNCHANGED <<vars, left, nid, ins, outs>>
Shape == [i \in DOMAIN q |-> [q[i] EXCEPT !.id = 0]]
GView == <<Shape, closed, [t \in Threads |-> [pend[t] EXCEPT !.a = 0, !.x = 0]], req, now>>
GBound == Len(hist) < Depth /\ Len(q) <= 3
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
