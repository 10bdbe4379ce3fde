----------------------------- MODULE MemStoreMC -----------------------------
(* Every history of length Depth over a small alphabet of calls, with the    *)
(* result of each call and the final contents, for replay on the real code.  *)
EXTENDS MemStore, Json
CONSTANTS Depth, Alphabet
VARIABLES st, hist
vars == <<st, hist>>

T0 == << >>
TA == <<[n |-> "t1", v |-> "a"]>>
TB == <<[n |-> "t1", v |-> "b"], [n |-> "t2", v |-> "a"]>>
TN == <<[n |-> "t2", v |-> ""]>>
TX == <<[n |-> "b:d", v |-> "a"]>>
TD == <<[n |-> "t1", v |-> "x"], [n |-> "t1", v |-> "a"], [n |-> "t1", v |-> "b"], [n |-> "t2", v |-> ""]>>
TY == <<[n |-> "t1", v |-> "x:y"]>>

Put(h, k, v, ts) == [op |-> "put", h |-> h, k |-> k, v |-> v, tags |-> ts]
Query(h, cs)     == [op |-> "query", h |-> h, bad |-> FALSE, cs |-> cs]
C(n, v)          == [n |-> n, v |-> v]
B(k, v, ts)      == [k |-> k, v |-> v, tags |-> ts]

\* data alphabet: one store
DataOps == {Put(1, "k1", "v1", T0), Put(1, "k1", "v2", TA), Put(1, "k2", "v1", TB), Put(1, "k2", "", TN), Put(1, "k1", "v9", TD),
            Put(1, "", "v1", T0), Put(1, "k1", NilValue, TA), Put(1, "k1", "v3", TX), Put(1, "k2", "v3", TY),
            [op |-> "delete", h |-> 1, k |-> "k1"], [op |-> "delete", h |-> 1, k |-> ""],
            [op |-> "getbulk", h |-> 1, ks |-> <<"k2", "k1", "k2">>], [op |-> "getbulk", h |-> 1, ks |-> <<"k1", "">>],
            [op |-> "getbulk", h |-> 1, ks |-> << >>],
            Query(1, <<C("t1", "")>>), Query(1, <<C("t1", "a")>>), Query(1, <<C("t1", "b"), C("t2", "a")>>),
            Query(1, <<C("t1", "a"), C("t1", "b")>>), Query(1, <<C("t1", ""), C("t2", "")>>), Query(1, <<C("zz", "a")>>),
            [op |-> "query", h |-> 1, bad |-> TRUE, cs |-> << >>, expr |-> ""],
            [op |-> "query", h |-> 1, bad |-> TRUE, cs |-> << >>, expr |-> "t1:a:b"],
            [op |-> "query", h |-> 1, bad |-> TRUE, cs |-> << >>, expr |-> "t1:a&&t2:a:b"],
            [op |-> "batch", h |-> 1, ops |-> << >>],
            [op |-> "batch", h |-> 1, ops |-> <<B("k1", "v4", TA), B("k1", NilValue, T0), B("k2", "v4", TA)>>],
            [op |-> "batch", h |-> 1, ops |-> <<B("k2", NilValue, T0), B("k1", "v5", TB), B("k1", "v6", TN)>>],
            [op |-> "batch", h |-> 1, ops |-> <<B("k1", "v7", T0), B("", "v7", T0)>>],
            [op |-> "batch", h |-> 1, ops |-> <<B("k1", "v8", TX), B("k2", "v8", T0)>>],
            [op |-> "flush", h |-> 1]}
\* life cycle alphabet: several stores and handles
Open(n) == [op |-> "open", name |-> n]
LifeOps(s) == {Open("S1"), Open("s1"), Open("s2"), Open(""), [op |-> "stores"], [op |-> "pclose"],
               [op |-> "setcfg", name |-> "S1", tags |-> <<"t1">>], [op |-> "setcfg", name |-> "s1", tags |-> <<"b:d">>],
               [op |-> "setcfg", name |-> "s2", tags |-> <<"t2", "t1">>],
               [op |-> "getcfg", name |-> "s1"], [op |-> "getcfg", name |-> "S2"], [op |-> "ping"]}
              \cup {[op |-> "close", h |-> h] : h \in 1..Len(s.objs)}
              \cup {Put(h, "k1", "w", TA) : h \in {x \in 1..Len(s.objs) : s.open[s.objs[x].name] = x}}
              \cup {[op |-> "get", h |-> h, k |-> "k1"] : h \in {x \in 1..Len(s.objs) : s.open[s.objs[x].name] = x}}

Start == IF Alphabet = "data" THEN Apply(Init0, Open("s1")).st ELSE Init0
Init == st = Start /\ hist = << >>
Ops == IF Alphabet = "data" THEN DataOps ELSE LifeOps(st)
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops : LET r == Apply(st, op) IN
              st' = r.st /\ hist' = Append(hist, [call |-> op, res |-> r.res])
Spec == Init /\ [][Next]_vars

\* Error results leave the state unchanged; reads do not change it either; closing loses no other store.
ErrorsInert == [][LET h == hist'[Len(hist')] IN
   /\ (~h.res.ok => st' = st)
   /\ (h.call.op \in {"get", "gettags", "getbulk", "query", "stores", "getcfg", "flush", "ping"} => st' = st)
   /\ (h.call.op = "close" => \A n \in Names : n # st.objs[h.call.h].name => st'.open[n] = st.open[n])]_vars
QueryExact == \A i \in 1..Len(hist) : hist[i].call.op = "query" /\ hist[i].res.ok =>
                 \A x, y \in hist[i].res.v : x.k = y.k => x = y
Final == [open |-> st.open, data |-> [i \in 1..Len(st.objs) |-> {[k |-> k, v |-> st.objs[i].data[k].v, tags |-> st.objs[i].data[k].tags] : k \in DOMAIN st.objs[i].data}]]
Emit == Len(hist) = Depth => PrintT("@@" \o ToJson([expect |-> "history", pre |-> Alphabet, hist |-> hist, final |-> Final]))
=============================================================================
