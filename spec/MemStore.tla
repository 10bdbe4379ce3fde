------------------------------ MODULE MemStore ------------------------------
(* The in-memory storage provider (legacy/mem) as an abstract data type:     *)
(* a partial map from (case-folded) store names to store objects, each a map *)
(* from keys to (value, tags).  Apply(st, op) is the whole sequential        *)
(* semantics: one public call = one atomic transition, returning the result  *)
(* that the caller must see.  It is reused by                                *)
(*   - MemStoreMC     exhaustive exploration, invariants, emitted histories  *)
(*   - MemStoreTrace  sequential traces of the real code                     *)
(*   - MemStoreLin    concurrent call/return histories (linearizability)     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

BadTagNames  == {"b:d"}          \* contain ':'
BadTagValues == {"x:y"}
NilValue     == "NIL"            \* a nil []byte

\* st.objs : sequence of store objects ever created: [name, data, cfg]
\* st.open : function from folded store name to the index of the open object (0: none)
Fold(n) == CASE n = "S1" -> "s1" [] n = "S2" -> "s2" [] OTHER -> n
Names   == {"s1", "s2"}

Init0 == [objs |-> << >>, open |-> [n \in Names |-> 0]]

OK(v)    == [ok |-> TRUE,  v |-> v]
Err(e)   == [ok |-> FALSE, v |-> e]

\* keys present = DOMAIN data
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Upd(f, k, e) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN e ELSE f[x]]

BadTags(tags) == \E i \in 1..Len(tags) : tags[i].n \in BadTagNames \/ tags[i].v \in BadTagValues

Matches(e, c) == \E i \in 1..Len(e.tags) : e.tags[i].n = c.n /\ (c.v = "" \/ e.tags[i].v = c.v)

QueryResult(data, cs) == {[k |-> k, v |-> data[k].v, tags |-> data[k].tags] :
                            k \in {x \in DOMAIN data : \A i \in 1..Len(cs) : Matches(data[x], cs[i])}}

RECURSIVE BatchApply(_, _)
BatchApply(d, ops) ==
  IF ops = << >> THEN d
  ELSE LET o == Head(ops) IN
       BatchApply(IF o.v = NilValue THEN Del(d, o.k) ELSE Upd(d, o.k, [v |-> o.v, tags |-> o.tags]), Tail(ops))

\* A result of the form [st, res].  Errors leave the state alone.
R(st, res) == [st |-> st, res |-> res]

SetData(st, h, d) == [st EXCEPT !.objs[h].data = d]

Apply(st, op) ==
  CASE op.op = "open" ->
         IF op.name = "" THEN R(st, Err("name"))
         ELSE LET n == Fold(op.name) IN
              IF st.open[n] # 0 THEN R(st, OK(st.open[n]))
              ELSE LET i == Len(st.objs) + 1 IN
                   R([objs |-> Append(st.objs, [name |-> n, data |-> << >>, cfg |-> << >>]),
                      open |-> [st.open EXCEPT ![n] = i]], OK(i))
    [] op.op = "setcfg" ->
         IF \E i \in 1..Len(op.tags) : op.tags[i] \in BadTagNames THEN R(st, Err("tag"))
         ELSE LET n == Fold(op.name) IN
              IF n \notin Names \/ st.open[n] = 0 THEN R(st, Err("nostore"))
              ELSE R([st EXCEPT !.objs[st.open[n]].cfg = op.tags], OK(0))
    [] op.op = "getcfg" ->
         LET n == Fold(op.name) IN
         IF n \notin Names \/ st.open[n] = 0 THEN R(st, Err("nostore")) ELSE R(st, OK(st.objs[st.open[n]].cfg))
    [] op.op = "stores" -> R(st, OK({st.open[n] : n \in {x \in Names : st.open[x] # 0}}))
    [] op.op = "pclose" -> R([st EXCEPT !.open = [n \in Names |-> 0]], OK(0))
    [] op.op = "close" ->
         \* closing drops the object; a handle that is no longer the open one must not disturb its successor
         LET n == st.objs[op.h].name IN
         R(IF st.open[n] = op.h THEN [st EXCEPT !.open[n] = 0] ELSE st, OK(0))
    [] op.op = "put" ->
         IF op.k = "" THEN R(st, Err("key"))
         ELSE IF op.v = NilValue THEN R(st, Err("value"))
         ELSE IF BadTags(op.tags) THEN R(st, Err("tag"))
         ELSE R(SetData(st, op.h, Upd(st.objs[op.h].data, op.k, [v |-> op.v, tags |-> op.tags])), OK(0))
    [] op.op = "get" ->
         IF op.k = "" THEN R(st, Err("key"))
         ELSE IF op.k \notin DOMAIN st.objs[op.h].data THEN R(st, Err("notfound"))
         ELSE R(st, OK(st.objs[op.h].data[op.k].v))
    [] op.op = "gettags" ->
         IF op.k = "" THEN R(st, Err("key"))
         ELSE IF op.k \notin DOMAIN st.objs[op.h].data THEN R(st, Err("notfound"))
         ELSE R(st, OK(st.objs[op.h].data[op.k].tags))
    [] op.op = "getbulk" ->
         IF op.ks = << >> \/ \E i \in 1..Len(op.ks) : op.ks[i] = "" THEN R(st, Err("key"))
         ELSE R(st, OK([i \in 1..Len(op.ks) |->
                IF op.ks[i] \in DOMAIN st.objs[op.h].data THEN st.objs[op.h].data[op.ks[i]].v ELSE NilValue]))
    [] op.op = "query" ->
         IF op.bad THEN R(st, Err("expr")) ELSE R(st, OK(QueryResult(st.objs[op.h].data, op.cs)))
    [] op.op = "delete" ->
         IF op.k = "" THEN R(st, Err("key")) ELSE R(SetData(st, op.h, Del(st.objs[op.h].data, op.k)), OK(0))
    [] op.op = "batch" ->
         IF op.ops = << >> \/ \E i \in 1..Len(op.ops) : op.ops[i].k = "" THEN R(st, Err("key"))
         ELSE IF \E i \in 1..Len(op.ops) : op.ops[i].v # NilValue /\ BadTags(op.ops[i].tags) THEN R(st, Err("tag"))
         ELSE R(SetData(st, op.h, BatchApply(st.objs[op.h].data, op.ops)), OK(0))
    [] op.op = "flush" -> R(st, OK(0))
    [] op.op = "ping"  -> R(st, OK(0))

\* A logged result agrees with the specified one.  Queries and store lists are compared as sets; the
\* message of an error is not part of the interface except for the sentinel errors.
Sentinels == {"notfound", "nostore"}
ToSet(s) == {s[i] : i \in 1..Len(s)}
Agrees(op, spec, logged) ==
  /\ spec.ok = logged.ok
  /\ IF ~spec.ok THEN (spec.v \in Sentinels <=> logged.v \in Sentinels) /\ (spec.v \in Sentinels => logged.v = spec.v)
     ELSE CASE op.op \in {"query", "stores"} -> /\ ToSet(logged.v) = spec.v
                                                /\ Len(logged.v) = Cardinality(spec.v)
            [] op.op \in {"open", "getcfg", "get", "gettags", "getbulk"} -> logged.v = spec.v
            [] OTHER -> TRUE
=============================================================================
