------------------------------- MODULE LockObj -------------------------------
(* Lock objects: unique_lock (slots 0,1), shared_lock (2,3), upgrade_lock     *)
(* (4,5), the scoped guards and the conversions between them, over lockable   *)
(* objects 1 and 2 that grant (0), refuse (1) or throw (2).                   *)
(* h counts the ownership the lockables have granted; loose what is owned     *)
(* without a lock object.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES sl, h, loose, env, pend
vars == <<sl, h, loose, env, pend>>
Slots == 0..5
Ms == 1..2
Tys == 0..2
Null == [m |-> 0, own |-> 0]
Idle == [o |-> "", a |-> 0, b |-> 0, c |-> 0, in |-> FALSE]
BInit == /\ sl = [i \in Slots |-> Null] /\ h = [m \in Ms |-> [t \in Tys |-> 0]]
         /\ loose = [m \in Ms |-> [t \in Tys |-> 0]] /\ env = [m \in Ms |-> 0] /\ pend = Idle
Ty(i) == i \div 2
St(s, hh, lo, r) == [s |-> s, h |-> hh, lo |-> lo, r |-> r]
Same(r) == St(sl, h, loose, r)
Add(hh, m, t, d) == IF m = 0 THEN hh ELSE [hh EXCEPT ![m][t] = @ + d]
\* the object in slot i goes away
Drop(hh, i) == IF sl[i].own = 1 THEN Add(hh, sl[i].m, Ty(i), -1) ELSE hh
L(m, own) == [m |-> m, own |-> own]

New(i, m, how) ==
  LET d == Drop(h, i)  t == Ty(i)
      got == St([sl EXCEPT ![i] = L(m, 1)], Add(d, m, t, 1), loose, "ok")
      thr == St([sl EXCEPT ![i] = Null], d, loose, "thrown")
      non == St([sl EXCEPT ![i] = L(m, 0)], d, loose, "ok") IN
  CASE how \in {0, 7} -> IF env[m] = 2 THEN thr ELSE got
    [] how \in {1, 8} -> non
    [] how \in {2, 9} -> St([sl EXCEPT ![i] = L(m, 1)], d, Add(loose, m, t, -1), "ok")
    [] OTHER -> IF env[m] = 2 THEN thr ELSE IF env[m] = 1 THEN non ELSE got
Attempt(i, o) ==
  LET x == sl[i]  t == Ty(i)
      got(r) == St([sl EXCEPT ![i].own = 1], Add(h, x.m, t, 1), loose, r) IN
  IF x.m = 0 THEN Same("perm")
  ELSE IF x.own = 1 THEN Same("deadlock")
  ELSE IF env[x.m] = 2 THEN Same("thrown")
  ELSE IF o = "lock" THEN got("ok")
  ELSE IF env[x.m] = 1 THEN Same("false") ELSE got("true")
UnlockOp(i) == LET x == sl[i] IN
  IF x.m = 0 \/ x.own = 0 THEN Same("perm") ELSE St([sl EXCEPT ![i].own = 0], Add(h, x.m, Ty(i), -1), loose, "ok")
Release(i) == LET x == sl[i] IN
  St([sl EXCEPT ![i] = Null], h, IF x.own = 1 THEN Add(loose, x.m, Ty(i), 1) ELSE loose, CASE x.m = 0 -> "null" [] x.m = 1 -> "m1" [] x.m = 2 -> "m2")
Swap(i, j) == St([sl EXCEPT ![i] = sl[j], ![j] = sl[i]], h, loose, "ok")
Move(i, j) == St([sl EXCEPT ![i] = sl[j], ![j] = Null], Drop(h, i), loose, "ok")
\* ownership moves from the mode of slot j to the mode of slot i
Conv(i, j) == LET x == sl[j]  d == Drop(h, i) IN
  St([sl EXCEPT ![i] = x, ![j] = Null], IF x.own = 1 THEN Add(Add(d, x.m, Ty(j), -1), x.m, Ty(i), 1) ELSE d, loose, "ok")
TryConv(i, j) == LET x == sl[j] IN
  IF x.own = 0 THEN Conv(i, j)
  ELSE IF env[x.m] = 2 THEN Same("thrown")
  ELSE IF env[x.m] = 1 THEN St([sl EXCEPT ![i] = Null], Drop(h, i), loose, "ok")
  ELSE Conv(i, j)
ConvOk(i, j, c) == IF c = 0 THEN <<Ty(i), Ty(j)>> \in {<<0, 2>>, <<1, 0>>, <<1, 2>>, <<2, 0>>}
                   ELSE <<Ty(i), Ty(j)>> \in {<<0, 1>>, <<0, 2>>, <<2, 1>>}
Nested(i) == LET x == sl[i] IN
  IF x.m = 0 THEN Same("err") ELSE IF x.own = 1 THEN Same("ok")
  ELSE IF env[x.m] = 2 THEN Same("thrown") ELSE St([sl EXCEPT ![i].own = 1], Add(h, x.m, 0, 1), loose, "ok")
Rev(i) == LET x == sl[i] IN
  IF x.m = 0 THEN Same("ok") ELSE St([sl EXCEPT ![i].own = 1], IF x.own = 1 THEN h ELSE Add(h, x.m, 0, 1), loose, "ok")
Adopts(how) == how \in {6, 7, 9}
GTy(how) == IF how \in {5, 7} THEN 1 ELSE 0
Scoped(m, how) == IF Adopts(how) THEN St(sl, Add(h, m, GTy(how), -1), Add(loose, m, GTy(how), -1), "ok")
                  ELSE IF env[m] = 2 THEN Same("thrown") ELSE Same("ok")
Apply(o, a, b, c) ==
  CASE o = "new" -> New(a, b, c)
    [] o \in {"lock", "try", "for", "until", "tabs", "trel", "xt"} -> Attempt(a, o)
    [] o = "unlock" -> UnlockOp(a)
    [] o = "release" -> Release(a)
    [] o \in {"swap", "fswap"} -> Swap(a, b)
    [] o \in {"mova", "movc"} -> Move(a, b)
    [] o = "conv" -> IF c = 0 THEN Conv(a, b) ELSE TryConv(a, b)
    [] o = "del" -> St([sl EXCEPT ![a] = Null], Drop(h, a), loose, "ok")
    [] o = "raw" -> St(sl, Add(h, a, b, 1), Add(loose, a, b, 1), "ok")
    [] o = "rawu" -> St(sl, Add(h, a, b, -1), Add(loose, a, b, -1), "ok")
    [] o = "scoped" -> Scoped(a, b)
    [] o = "up" -> Same("ok")
    [] o = "nested" -> Nested(a)
    [] o = "rev" -> Rev(a)
HasIn(o) == o \in {"scoped", "up", "nested", "rev"}
Pow(b, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN b ELSE IF n = 2 THEN b*b ELSE IF n = 3 THEN b*b*b ELSE IF n = 4 THEN b*b*b*b ELSE b*b*b*b*b
SlotCode(s) == LET f(i) == Pow(6, i) * (s[i].m * 2 + s[i].own) IN f(0) + f(1) + f(2) + f(3) + f(4) + f(5)
HeldCode(hh) == LET f(m, t) == Pow(4, (m - 1) * 3 + t) * hh[m][t] IN f(1,0) + f(1,1) + f(1,2) + f(2,0) + f(2,1) + f(2,2)
\* what can be seen inside the scope of a guard: ownership counts, slots, own, mutex
Inner == LET i == pend.a  m == pend.b  x == IF pend.o = "scoped" THEN Null ELSE sl[i]  s0 == IF pend.o = "scoped" THEN sl ELSE [sl EXCEPT ![i] = Null] IN
  CASE pend.o = "scoped" -> [h |-> IF Adopts(m) THEN h ELSE IF m = 11 THEN Add(Add(h, 1, 0, 1), 2, 0, 1) ELSE Add(h, i, GTy(m), 1), s |-> sl, r |-> "", v |-> 0]
    [] pend.o = "up" -> [h |-> IF x.own = 1 THEN Add(Add(h, x.m, 2, -1), x.m, 0, 1) ELSE h, s |-> s0, r |-> IF x.own = 1 THEN "own" ELSE "not", v |-> x.m]
    [] pend.o = "nested" -> [h |-> IF x.own = 1 THEN h ELSE Add(h, x.m, 0, 1), s |-> s0, r |-> "own", v |-> x.m]
    [] pend.o = "rev" -> [h |-> IF x.own = 1 THEN Add(h, x.m, 0, -1) ELSE h, s |-> s0, r |-> "", v |-> 0]
Call(o, a, b, c) == pend.o = "" /\ pend' = [o |-> o, a |-> a, b |-> b, c |-> c, in |-> FALSE] /\ UNCHANGED <<sl, h, loose, env>>
In(hc, sc, r, v) == /\ HasIn(pend.o) /\ ~pend.in /\ HeldCode(Inner.h) = hc
                    /\ (pend.o # "scoped" => SlotCode(Inner.s) = sc /\ Inner.r = r /\ Inner.v = v)
                    /\ pend' = [pend EXCEPT !.in = TRUE] /\ UNCHANGED <<sl, h, loose, env>>
Ret(o, r, sc, hc) == /\ pend.o = o
                     /\ LET q == Apply(o, pend.a, pend.b, pend.c) IN
                        /\ q.r = r /\ (HasIn(o) => (pend.in <=> r = "ok"))
                        /\ SlotCode(q.s) = sc /\ HeldCode(q.h) = hc
                        /\ sl' = q.s /\ h' = q.h /\ loose' = q.lo
                     /\ pend' = Idle /\ UNCHANGED env
SetEnv(m, v) == pend.o = "" /\ env' = [env EXCEPT ![m] = v] /\ UNCHANGED <<sl, h, loose, pend>>
=============================================================================
