----------------------------- MODULE LinkCache ------------------------------
(* Linked documents (resources with digests, schemas) behind a cache, while   *)
(* the server changes them. One step: the server may change one document,     *)
(* then a credential that fits certain versions is checked.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Kinds
VARIABLES kind, server, seen, log
vars == <<kind, server, seen, log>>
U == {"a", "b"}
V == {"v1", "v2"}
\* what the server does with a document
S == V \cup {"down"}
Changes == {<<u, s>> : u \in U, s \in S} \cup {<<"none", "">>, <<"forget", "">>}
\* what a credential refers to: one document or both, each with the version it fits
Wants == {<<<<u, v>>>> : u \in U, v \in V} \cup {<<<<"a", v>>, <<"b", w>>>> : v \in V, w \in V} \cup {<<<<"a", "v1">>, <<"a", "v1">>>>, <<<<"a", "v1">>, <<"a", "v2">>>>}
Remembers(k) == k \in {"res1", "res2", "schema"}
Init == kind \in Kinds /\ server = [u \in U |-> "v1"] /\ seen = [u \in U |-> {}] /\ log = <<>>
\* seen: the versions a cache may hold. A check is answered with one of those or with what is served now.
Step(ch, w) ==
  LET srv == IF ch[1] \in {"none", "forget"} THEN server ELSE [server EXCEPT ![ch[1]] = ch[2]]
      sn == IF ch[1] = "forget" THEN [u \in U |-> {}] ELSE seen
      may(i) == sn[w[i][1]] \cup {srv[w[i][1]]}
      \* two mentions of one document are answered independently
      canAccept == \A i \in 1..Len(w) : w[i][2] \in may(i)
      canReject == \E i \in 1..Len(w) : may(i) \ {w[i][2]} # {}
      verdict == IF canAccept /\ canReject THEN "either" ELSE IF canAccept THEN "ok" ELSE "reject"
      touched == {w[i][1] : i \in 1..Len(w)}
  IN /\ server' = srv
     /\ seen' = IF ~Remembers(kind) THEN seen ELSE [u \in U |-> IF u \in touched /\ srv[u] # "down" THEN sn[u] \cup {srv[u]} ELSE sn[u]]
     /\ log' = Append(log, [change |-> ch, want |-> w, expect |-> verdict])
     /\ UNCHANGED kind
Next == Len(log) < K /\ \E ch \in Changes, w \in Wants : (ch[1] = "forget" => Remembers(kind) /\ kind # "schema") /\ Step(ch, w)
Spec == Init /\ [][Next]_vars
\* a version that was never served is never accepted
Served(i, u) == (IF u \in U THEN {"v1"} ELSE {}) \cup {log[j].change[2] : j \in {k \in 1..i : log[k].change[1] = u}}
Fresh == \A i \in 1..Len(log) : log[i].expect \in {"ok", "either"} => \A j \in 1..Len(log[i].want) : log[i].want[j][2] \in Served(i, log[i].want[j][1])
NoMemory == ~Remembers(kind) => (\A u \in U : seen[u] = {}) /\ \A i \in 1..Len(log) : log[i].expect # "either"
Emit == (Len(log) = K) => PrintT("@@" \o ToJson([expect |-> log[K].expect, kind |-> kind, steps |-> log]))
=============================================================================
