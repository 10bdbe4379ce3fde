----------------------------- MODULE MemStoreLin -----------------------------
(* Linearizability: a concurrent history of the real provider, recorded as   *)
(* call and return events (real-time order), is accepted iff each operation  *)
(* can be given one instant between its call and its return at which         *)
(* MemStore's Apply explains all results.  Lin(p) is the silent step.        *)
EXTENDS MemStore, Json
CONSTANT Debug
Traces == ndJsonDeserialize("trace.ndjson")
Procs == 1..5
VARIABLES t, l, st, pend
vars == <<t, l, st, pend>>
None == [s |-> "none"]
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Init0 /\ pend = [p \in Procs |-> None]
More == l <= Len(Traces[t].ev)
Ev == Traces[t].ev[l]
Call == /\ More /\ Ev.k = "call" /\ pend[Ev.p] = None
        /\ pend' = [pend EXCEPT ![Ev.p] = [s |-> "called", call |-> Ev.call]]
        /\ l' = l + 1 /\ UNCHANGED <<t, st>>
Lin(p) == /\ More /\ pend[p].s = "called"
          /\ LET r == Apply(st, pend[p].call) IN
               st' = r.st /\ pend' = [pend EXCEPT ![p] = [s |-> "lin", call |-> pend[p].call, res |-> r.res]]
          /\ UNCHANGED <<t, l>>
Ret == /\ More /\ Ev.k = "ret" /\ pend[Ev.p].s = "lin"
       /\ Agrees(pend[Ev.p].call, pend[Ev.p].res, Ev.res)
       /\ pend' = [pend EXCEPT ![Ev.p] = None]
       /\ l' = l + 1 /\ UNCHANGED <<t, st>>
\* a linearization point is only ever needed immediately before some return
Next == IF ~More THEN FALSE
        ELSE IF Ev.k = "call" THEN Call
        ELSE Ret \/ (pend[Ev.p].s = "called" /\ \E p \in Procs : Lin(p))
Spec == Init /\ [][Next]_vars
Progress == /\ (~More => PrintT("@@" \o ToJson([t |-> Traces[t].t, done |-> TRUE])))
            /\ (Debug => PrintT("@@" \o ToJson([t |-> Traces[t].t, at |-> l - 1])))
=============================================================================
