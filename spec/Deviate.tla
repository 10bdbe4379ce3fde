------------------------------ MODULE Deviate -------------------------------
(* A combination c starts from a named base and deviates from it in at most K *)
(* dimensions, taken in the fixed order Order.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Order, Dom(_), BaseNames, BaseOf(_)
VARIABLES c, last, dev, base, pc
vars == <<c, last, dev, base, pc>>
DInit == /\ base \in BaseNames
         /\ c = BaseOf(base)
         /\ last = 0 /\ dev = <<>> /\ pc = "pick"
Deviation == /\ pc = "pick" /\ Len(dev) < K
             /\ \E i \in (last + 1)..Len(Order) : \E v \in Dom(Order[i]) \ {c[Order[i]]} :
                   /\ c' = [c EXCEPT ![Order[i]] = v] /\ last' = i
                   /\ dev' = Append(dev, Order[i])
             /\ UNCHANGED <<base, pc>>
Decision == pc = "pick" /\ pc' = "done" /\ UNCHANGED <<c, last, dev, base>>
DNext == Deviation \/ Decision
Done == pc = "done"
=============================================================================
