------------------------------ MODULE SyncValMC ------------------------------
EXTENDS SyncVal, Json
CONSTANTS Ops, MaxOps, Depth
VARIABLES n, sum, hist
\* n: calls so far; sum: what the values would be if every completed effect counted exactly once
aux == <<n, sum, hist>>
all == <<vars, aux>>
Init == SInit(FALSE) /\ n = 0 /\ sum = 0 /\ hist = <<>>
InitR == SInit(TRUE) /\ n = 0 /\ sum = 0 /\ hist = <<>>
Pairs == {<<c, d>> : c, d \in Cells}
HoldsOf(t) == {c \in Cells : own[c] = t}
Mine(t) == {h \in Handles : hd[h].t = t}
FreeH == {h \in Handles : hd[h].t = 0 /\ \A u \in Threads : pend[u].st # "idle" => pend[u].h # h}
Ok(t, s) == rec \/ Rng(s) \cap HoldsOf(t) = {}
On(o) == o \in Ops
Log(e) == hist' = Append(hist, e)
RECURSIVE Num(_)
Num(s) == IF s = <<>> THEN 0 ELSE Num(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)]
C(t, o, s, x, h, k, thr) == Call(t, o, s, x, h, k, thr) /\ Log(<<t, o, Num(s), x, h + 10 * k + (IF thr THEN 1000 ELSE 0)>>)
Client(t) ==
  \/ \E c \in Cells : Ok(t, <<c>>) /\ \/ On("get") /\ C(t, "get", <<c>>, 0, 0, 0, FALSE)
                                      \/ On("set") /\ \E thr \in BOOLEAN : C(t, "set", <<c>>, 1, 0, 0, thr)
                                      \/ On("add") /\ \E thr \in BOOLEAN : C(t, "add", <<c>>, 1, 0, 0, thr)
                                      \/ On("swt") /\ C(t, "swt", <<c>>, 2, 0, 0, FALSE)
                                      \/ On("cmt") /\ C(t, "cmt", <<c>>, 1, 0, 2, FALSE)
  \/ \E s \in Pairs : Ok(t, s) /\ \/ On("asg") /\ \E thr \in BOOLEAN : (thr => s[1] # s[2]) /\ C(t, "asg", s, 0, 0, 0, thr)
                                  \/ On("swp") /\ C(t, "swp", s, 0, 0, 0, FALSE)
                                  \/ On("cmp") /\ C(t, "cmp", s, 0, 0, 2, FALSE)
                                  \/ On("open2") /\ s[1] # s[2] /\ \E h \in FreeH : C(t, "open", s, 0, h, 0, FALSE)
  \/ \E h \in FreeH : \E c \in Cells : \/ On("open") /\ Ok(t, <<c>>) /\ C(t, "open", <<c>>, 0, h, 1, FALSE)
                                       \/ On("try") /\ C(t, "try", <<c>>, 0, h, 1, FALSE)
                                       \/ On("defer") /\ C(t, "defer", <<c>>, 0, h, 1, FALSE)
  \/ \E h \in Mine(t) : \/ C(t, "hclose", <<>>, 0, h, 0, FALSE)
                        \/ On("defer") /\ (hd[h].on \/ Ok(t, hd[h].s)) /\ Len(hd[h].s) = 1 /\ C(t, "hlock", <<>>, 0, h, 0, FALSE)
                        \/ On("defer") /\ Len(hd[h].s) = 1 /\ (\E o \in {"hunlock", "htry", "hadopt"} : (o = "hadopt" => hd[h].on) /\ C(t, o, <<>>, 0, h, 0, FALSE))
                        \/ On("hacc") /\ hd[h].on /\ (\E k \in 1..Len(hd[h].s) : C(t, "hget", <<>>, 0, h, k, FALSE) \/ C(t, "hset", <<>>, 1, h, k, FALSE))
                        \/ On("hmove") /\ C(t, "hmove", <<>>, 0, h, 0, FALSE)
MRet(t) == pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r, pend[t].v) /\ UNCHANGED aux
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN f[c] + Sum(f, S \ {c})
MLin(t) == Lin(t) /\ UNCHANGED <<n, hist>>
           /\ sum' = sum + (IF pend[t].st = "call" /\ pend'[t].st = "held" /\ pend[t].o = "add" /\ pend'[t].r = "ok" THEN pend[t].x ELSE 0)
Next == \E t \in Threads : MLin(t) \/ MRet(t) \/ (n < MaxOps /\ n' = n + 1 /\ UNCHANGED sum /\ Client(t) )
\* the model's history is only for generating; leave it out of the state
View == <<vars, n, sum>>
\* ownership is exactly what handles and running operations account for
Account == \A c \in Cells : /\ cnt[c] = Cardinality({h \in Handles : hd[h].on /\ c \in Rng(hd[h].s)}) + Cardinality({t \in Threads : c \in pend[t].got})
                            /\ (own[c] = 0) = (cnt[c] = 0) /\ (rec \/ cnt[c] <= 1)
                            /\ \A h \in Handles : hd[h].on /\ c \in Rng(hd[h].s) => own[c] = hd[h].t
NoneLost == Ops \subseteq {"get", "add", "swp", "open", "open2", "defer", "try", "cmp"} => Sum(val, Cells) = sum
\* a value changes only for a thread that owns it (before and after)
Guarded == [][\A c \in Cells : val'[c] # val[c] => \E t \in Threads : own[c] = t /\ own'[c] = t /\ pend'[t].st # pend[t].st]_all
\* what a handle has read stays true while it owns the value: nobody else can change it
Stable == [][\A h \in Handles : hd[h].on => \A c \in Rng(hd[h].s) : val'[c] # val[c] => pend[hd[h].t].st = "call" /\ pend'[hd[h].t].st \in {"done", "held"}]_all
AllBlocked == (\A t \in Threads : pend[t].st = "idle" \/ Blocked(t)) /\ (\E t \in Threads : pend[t].st = "call")
\* whoever is blocked is blocked by a handle somebody keeps open, or waits for itself
NoDeadlock == AllBlocked => \E h \in Handles : hd[h].on
\* operations that need one value get it in the end if nobody keeps one
FairSpec == Init /\ [][Next]_all /\ \A t \in Threads : SF_all(MLin(t) /\ pend'[t].got # pend[t].got) /\ WF_all(MLin(t)) /\ WF_all(MRet(t))
Live == \A t \in Threads : (pend[t].st = "call") ~> (pend[t].st = "idle")
\* ---- generation
Must(t) == pend[t].st = "held" \/ (pend[t].st = "call" /\ ~Blocked(t))
GSettled == \A t \in Threads : pend[t].st # "done" /\ ~Must(t)
GNext == \/ ~GSettled /\ UNCHANGED aux /\ \E t \in Threads : (Must(t) /\ ~ENABLED Drop(t) /\ Lin(t)) \/ (Must(t) /\ ENABLED Drop(t) /\ (Grab(t) \/ (~ENABLED Grab(t) /\ (Do(t) \/ (~ENABLED Do(t) /\ Drop(t)))))) \/ (pend[t].st = "done" /\ Ret(t, pend[t].o, pend[t].r, pend[t].v))
         \/ GSettled /\ (\E t \in Threads : pend[t].st = "idle" /\ Client(t)) /\ UNCHANGED <<n, sum>>
GView == vars
GBound == Len(hist) < Depth
GPrint == Len(hist') > Len(hist) => PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
