---------------------------- MODULE MemStoreTrace ----------------------------
(* Sequential traces recorded from the real provider: every call, with its   *)
(* arguments and result, must be the next transition of MemStore.            *)
EXTENDS MemStore, Json
CONSTANT Debug
Traces == ndJsonDeserialize("trace.ndjson")
VARIABLES t, l, st
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Init0
Ev == Traces[t].ev[l]
Next == /\ l <= Len(Traces[t].ev)
        /\ LET r == Apply(st, Ev.call) IN
             /\ Agrees(Ev.call, r.res, Ev.res)
             /\ st' = r.st
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_<<t, l, st>>
Progress == /\ (l = Len(Traces[t].ev) + 1 => PrintT("@@" \o ToJson([t |-> Traces[t].t, done |-> TRUE])))
            /\ (Debug => PrintT("@@" \o ToJson([t |-> Traces[t].t, at |-> l - 1])))
\* invariants of the abstract type, evaluated in every state of every real trace
TypeOK == /\ \A n \in Names : st.open[n] \in 0..Len(st.objs)
          /\ \A n \in Names : st.open[n] # 0 => st.objs[st.open[n]].name = n
          /\ \A i \in 1..Len(st.objs) : \A k \in DOMAIN st.objs[i].data : k # "" /\ st.objs[i].data[k].v # NilValue
                                            /\ ~BadTags(st.objs[i].data[k].tags)
=============================================================================
