------------------------------ MODULE TraceLib ------------------------------
(* Binding of a specification to traces recorded from the implementation.   *)
(* A trace is a sequence of events (see rt/vs.h).  A trace specification    *)
(* starts from every trace of the file and must explain its events one by   *)
(* one with actions of the component specification; actions that are not    *)
(* visible in the trace (linearization points) are taken silently.  Record  *)
(* remembers how far each trace could be explained; a trace with an event   *)
(* that no behaviour of the specification explains is reported by Post.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
NT == Len(Traces)
ASSUME \A i \in 1..NT : TLCSet(i, 0)
TrInit == tr \in 1..NT /\ l = 1
More == l <= Len(Traces[tr].ev)
E == Traces[tr].ev[l]
Cfg == Traces[tr].c
Is(k) == More /\ E.e = k
Adv == l' = l + 1 /\ UNCHANGED tr
Stay == UNCHANGED <<tr, l>>
\* silent steps are only needed immediately before an event that observes them
Observing == More /\ E.e \notin {"call"}
Record == (IF TLCGet(tr) < l THEN TLCSet(tr, l) ELSE TRUE)
          /\ (TLCGet(tr) <= Len(Traces[tr].ev) \/ ~More)
Post == /\ \A i \in 1..NT : TLCGet(i) > Len(Traces[i].ev) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
        /\ PrintT(<<"VALIDATED", NT>>)
=============================================================================
