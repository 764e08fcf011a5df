------------------------------- MODULE SyncVal -------------------------------
(* Values guarded by a mutex of their own.  Every access happens while the    *)
(* accessing thread owns the value; operations on several values own all of   *)
(* them at once and never wait for one while they own another.  A handle owns *)
(* its values from the moment it has been given them until it gives them back.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Cells, Handles
VARIABLES val, own, cnt, hd, pend, rec
vars == <<val, own, cnt, hd, pend, rec>>
\* s: the cells involved, x: an argument, h: a handle, k: variant, thr: the value's own operation throws
Idle == [st |-> "idle", o |-> "", s |-> <<>>, x |-> 0, h |-> 0, k |-> 0, thr |-> FALSE, got |-> {}, blk |-> FALSE, r |-> "", v |-> 0]
Closed == [t |-> 0, s |-> <<>>, on |-> FALSE]
SInit(r) == /\ val = [c \in Cells |-> 0] /\ own = [c \in Cells |-> 0] /\ cnt = [c \in Cells |-> 0] /\ rec = r
            /\ hd = [h \in Handles |-> Closed] /\ pend = [t \in Threads |-> Idle]
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE Append(Digits(n \div 10), n % 10)
Whole == {"get", "set", "add", "swt", "asg", "swp", "cmp", "cmt"}     \* operations that own their values only while they run
Opens == {"open", "hlock"}                                            \* wait until they own them, and keep them
Tries == {"try", "htry"}
Plain == {"defer", "hunlock", "hclose", "hget", "hset", "hmove", "hadopt"}
Same(p) == p.o \in {"asg", "swp"} /\ Len(p.s) = 2 /\ p.s[1] = p.s[2]
\* assigning or swapping a value with itself does nothing
Need(p) == IF Same(p) THEN {} ELSE Rng(p.s)
Call(t, o, s, x, h, k, thr) ==
  /\ pend[t].st = "idle"
  /\ pend' = [pend EXCEPT ![t] = [Idle EXCEPT !.st = "call", !.o = o, !.x = x, !.h = h, !.k = k, !.thr = thr,
                                              !.s = IF o \in {"hlock", "htry", "hunlock", "hclose", "hget", "hset", "hmove", "hadopt"} THEN hd[h].s ELSE s]]
  /\ UNCHANGED <<val, own, cnt, hd, rec>>
Fin(t, r, v) == [pend EXCEPT ![t].st = "done", ![t].r = r, ![t].v = v]
FreeFor(t, c) == own[c] = 0 \/ (rec /\ own[c] = t)
Unblock(f, S) == [u \in Threads |-> IF f[u].blk /\ S \cap Rng(f[u].s) # {} THEN [f[u] EXCEPT !.blk = FALSE] ELSE f[u]]
Take(t, S) == /\ own' = [c \in Cells |-> IF c \in S THEN t ELSE own[c]] /\ cnt' = [c \in Cells |-> IF c \in S THEN cnt[c] + 1 ELSE cnt[c]]
Give(S) == /\ own' = [c \in Cells |-> IF c \in S /\ cnt[c] = 1 THEN 0 ELSE own[c]] /\ cnt' = [c \in Cells |-> IF c \in S THEN cnt[c] - 1 ELSE cnt[c]]
Wants(p) == p.o \in Whole \/ (p.o \in Opens /\ ~(p.o = "hlock" /\ hd[p.h].on))
Grab(t) == LET p == pend[t] IN
  /\ p.st = "call" /\ Wants(p) /\ ~p.blk
  /\ \E c \in Need(p) \ p.got : FreeFor(t, c) /\ Take(t, {c}) /\ pend' = [pend EXCEPT ![t].got = @ \cup {c}]
  /\ UNCHANGED <<val, hd, rec>>
\* whoever needs several values gives up those it has when another one is taken
Drop(t) == LET p == pend[t] IN
  /\ p.st = "call" /\ Cardinality(Need(p)) > 1
  /\ \E c \in p.got : Give({c}) /\ pend' = Unblock([pend EXCEPT ![t].got = @ \ {c}], {c})
  /\ UNCHANGED <<val, hd, rec>>
Rel(a, k, b) == CASE k = 0 -> a = b [] k = 1 -> a # b [] k = 2 -> a < b [] k = 3 -> a <= b [] k = 4 -> a > b [] k = 5 -> a >= b
TF(b) == IF b THEN "true" ELSE "false"
Held(t, r, v) == [pend EXCEPT ![t].st = "held", ![t].r = r, ![t].v = v]
Do(t) == LET p == pend[t] c == p.s[1] d == p.s[Len(p.s)] IN
  /\ p.st = "call" /\ Wants(p) /\ p.got = Need(p)
  /\ CASE p.o \in Whole /\ p.thr -> pend' = Held(t, "thrown", 0) /\ UNCHANGED <<val, hd>>
       [] p.o = "get" -> pend' = Held(t, "ok", val[c]) /\ UNCHANGED <<val, hd>>
       [] p.o = "set" -> val' = [val EXCEPT ![c] = p.x] /\ pend' = Held(t, "ok", 0) /\ UNCHANGED hd
       [] p.o = "add" -> val' = [val EXCEPT ![c] = @ + p.x] /\ pend' = Held(t, "ok", val[c]) /\ UNCHANGED hd
       [] p.o = "swt" -> val' = [val EXCEPT ![c] = p.x] /\ pend' = Held(t, "ok", val[c]) /\ UNCHANGED hd
       [] p.o = "asg" -> val' = [val EXCEPT ![c] = val[d]] /\ pend' = Held(t, "ok", 0) /\ UNCHANGED hd
       [] p.o = "swp" -> val' = [val EXCEPT ![c] = val[d], ![d] = val[c]] /\ pend' = Held(t, "ok", 0) /\ UNCHANGED hd
       [] p.o = "cmp" -> pend' = Held(t, TF(Rel(val[c], p.k, val[d])), 0) /\ UNCHANGED <<val, hd>>
       [] p.o = "cmt" -> pend' = Held(t, TF(Rel(val[c], p.k, p.x)), 0) /\ UNCHANGED <<val, hd>>
       [] p.o = "open" -> hd' = [hd EXCEPT ![p.h] = [t |-> t, s |-> p.s, on |-> TRUE]] /\ pend' = [Fin(t, "ok", 0) EXCEPT ![t].got = {}] /\ UNCHANGED val
       [] p.o = "hlock" -> hd' = [hd EXCEPT ![p.h].on = TRUE] /\ pend' = [Fin(t, "ok", 0) EXCEPT ![t].got = {}] /\ UNCHANGED val
  /\ UNCHANGED <<own, cnt, rec>>
\* several values are given back one after the other
Back(t) == LET p == pend[t] IN
  /\ p.st = "held" /\ UNCHANGED <<val, hd, rec>>
  /\ IF p.got = {} THEN pend' = [pend EXCEPT ![t].st = "done"] /\ UNCHANGED <<own, cnt>>
     ELSE \E c \in p.got : Give({c}) /\ pend' = Unblock([pend EXCEPT ![t].st = IF p.got = {c} THEN "done" ELSE "held", ![t].got = @ \ {c}], {c})
Try(t) == LET p == pend[t] c == p.s[1] IN
  /\ p.st = "call" /\ p.o \in Tries /\ ~(p.o = "htry" /\ hd[p.h].on)
  /\ IF FreeFor(t, c) THEN Take(t, {c}) /\ hd' = [hd EXCEPT ![p.h] = [t |-> t, s |-> p.s, on |-> TRUE]] /\ pend' = Fin(t, "true", 0)
     ELSE hd' = [hd EXCEPT ![p.h] = [t |-> t, s |-> p.s, on |-> FALSE]] /\ pend' = Fin(t, "false", 0) /\ UNCHANGED <<own, cnt>>
  /\ UNCHANGED <<val, rec>>
Misuse(t) == LET p == pend[t] IN
  /\ p.st = "call" /\ ((p.o \in {"hlock", "htry"} /\ hd[p.h].on) \/ (p.o = "hunlock" /\ ~hd[p.h].on))
  /\ pend' = Fin(t, "error", 0) /\ UNCHANGED <<val, own, cnt, hd, rec>>
Handle(t) == LET p == pend[t] h == p.h S == Rng(p.s) IN
  /\ p.st = "call" /\ p.o \in Plain
  /\ CASE p.o = "defer" -> hd' = [hd EXCEPT ![h] = [t |-> t, s |-> p.s, on |-> FALSE]] /\ pend' = Fin(t, "ok", 0) /\ UNCHANGED <<val, own, cnt>>
       [] p.o = "hunlock" -> hd[h].on /\ hd' = [hd EXCEPT ![h].on = FALSE] /\ Give(S) /\ pend' = Unblock(Fin(t, "ok", 0), S) /\ UNCHANGED val
       [] p.o = "hclose" -> /\ hd' = [hd EXCEPT ![h] = Closed] /\ UNCHANGED val
                            /\ UNCHANGED <<own, cnt>>
                            /\ pend' = IF hd[h].on THEN [Held(t, "ok", 0) EXCEPT ![t].got = S] ELSE Fin(t, "ok", 0)
       [] p.o = "hget" -> hd[h].on /\ pend' = Fin(t, "ok", val[p.s[p.k]]) /\ UNCHANGED <<val, hd, own, cnt>>
       [] p.o = "hset" -> hd[h].on /\ val' = [val EXCEPT ![p.s[p.k]] = p.x] /\ pend' = Fin(t, "ok", 0) /\ UNCHANGED <<hd, own, cnt>>
       [] OTHER -> pend' = Fin(t, "ok", 0) /\ UNCHANGED <<val, own, cnt, hd>>     \* moving a handle, or adopting what another one released
  /\ UNCHANGED rec
Lin(t) == Grab(t) \/ Drop(t) \/ Do(t) \/ Back(t) \/ Try(t) \/ Misuse(t) \/ Handle(t)
Ret(t, o, r, v) == /\ pend[t].st = "done" /\ pend[t].o = o /\ pend[t].r = r /\ pend[t].v = v
                   /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<val, own, cnt, hd, rec>>
Blocked(t) == LET p == pend[t] IN p.st = "call" /\ Wants(p) /\ p.got = {} /\ \E c \in Need(p) : ~FreeFor(t, c)
Quiet == /\ \A t \in Threads : pend[t].st = "idle" \/ Blocked(t)
         /\ pend' = [t \in Threads |-> IF pend[t].st = "call" THEN [pend[t] EXCEPT !.blk = TRUE] ELSE pend[t]]
         /\ UNCHANGED <<val, own, cnt, hd, rec>>
=============================================================================
