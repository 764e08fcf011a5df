------------------------------ MODULE LockObjMC ------------------------------
EXTENDS LockObj, Json
CONSTANTS Depth, MaxH, US, MM, Tries, Envs
VARIABLE hist
Init == BInit /\ hist = <<>>
Do(o, a, b, c) == LET q == Apply(o, a, b, c) IN
  /\ sl' = q.s /\ h' = q.h /\ loose' = q.lo /\ UNCHANGED <<env, pend>>
  /\ hist' = Append(hist, <<1, o, a, b, c>>)
OpsOf(i) ==
  \/ \E m \in MM, how \in {0, 1, 2, 3} : (how = 2 => loose[m][Ty(i)] > 0) /\ Do("new", i, m, how)
  \/ \E o \in {"lock", Tries, "unlock", "release", "del"} : Do(o, i, 0, 0)
  \/ \E j \in US : i # j /\ ( (Ty(i) = Ty(j) /\ (\E o \in {"swap", "mova", "movc"} : Do(o, i, j, 0)))
                            \/ (ConvOk(i, j, 0) /\ Do("conv", i, j, 0))
                            \/ (ConvOk(i, j, 1) /\ Do("conv", i, j, 1)) )
  \/ Ty(i) = 2 /\ Do("up", i, 0, 0)
  \/ Ty(i) = 0 /\ Do("nested", i, 0, 0)
  \/ Ty(i) = 0 /\ (IF sl[i].m = 0 THEN TRUE ELSE env[sl[i].m] # 2) /\ Do("rev", i, 0, 0)
Next == \/ \E i \in US : OpsOf(i)
        \/ \E m \in MM : \E e \in Envs : env[m] # e /\ env' = [env EXCEPT ![m] = e] /\ UNCHANGED <<sl, h, loose, pend>> /\ hist' = Append(hist, <<1, "env", m, e, 0>>)
        \/ \E m \in MM : \E t \in {Ty(i) : i \in US} : loose[m][t] > 0 /\ Do("rawu", m, t, 0)
        \/ \E m \in MM : \E k \in {0, 5} : Do("scoped", m, k, 0)
\* ---- the ownership a lockable has granted is exactly what lock objects claim
Owning(m, t) == Cardinality({i \in Slots : Ty(i) = t /\ sl[i].m = m /\ sl[i].own = 1})
Accounted == \A m \in Ms, t \in Tys : h[m][t] = Owning(m, t) + loose[m][t]
NonNeg == \A m \in Ms, t \in Tys : h[m][t] >= 0 /\ loose[m][t] >= 0
OwnNeedsMutex == \A i \in Slots : sl[i].own = 1 => sl[i].m # 0
Bound == \A m \in Ms, t \in Tys : h[m][t] <= MaxH
GView == <<sl, h, loose, env>>
GBound == Len(hist) < Depth /\ Bound
GPrint == PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
