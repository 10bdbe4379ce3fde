------------------------------- MODULE Shared -------------------------------
(* Several parties use one thing at the same time: a parsed credential or     *)
(* presentation (and the checkers, creators, signers, resolvers and option    *)
(* lists used with it), a drawer of received tokens, the SD-JWT tools, a      *)
(* presentation definition with a wallet, or the clients that fetch things    *)
(* from the network through caches.                                           *)
(*                                                                            *)
(* A party's operation reads the shared thing, calls back into the resolver,  *)
(* loader, signer or transport a few times (another party may run there), and *)
(* answers.  The shared thing is never written; a cache may learn what the    *)
(* network serves and nothing else.  Hence every party gets the answer it     *)
(* would get alone, whatever the schedule, and the thing is afterwards what   *)
(* it was.  The word of party numbers is replayed on the real code by holding *)
(* parties at their callbacks (mode "gated"); mode "race" starts all of them  *)
(* at once under the race detector.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Parties,   \* how many
          Calls,     \* most callbacks at which a party can be held
          Free,      \* TRUE: no schedule, all start at once
          Stride, Offset  \* every Stride-th program only (1: all)

Creds == {"plain", "plain2", "ld", "ldpair", "di2", "jwt", "jwt2", "jwtld", "unsec", "cwt", "cwt2", "sd", "sd2", "sdrec", "bbs"}
VPs   == {"vp", "vpone", "vp2", "vpld", "vpdi2", "vpjwt", "vpjwt2", "vpcwt"}
Shops == {"tokens", "sdtools", "exchange", "network", "algorithms"}

CredOps == <<
  "again", "bbs", "check", "checkctx", "claims", "contents", "custom", "cwtclaims", "cwthex", "disclose", "discloseall",
  "display", "displaymap", "displaysome", "headers", "jwtclaims", "jwtmin", "jwtstring", "makesd", "makesd5", "marshal",
  "marshalld", "opens", "present", "presentcwt", "presentdi", "presentjwt", "presentld", "proofs", "raw", "rebuild", "reparse",
  "signcwt", "signjwt", "signmin", "strict", "universal", "unsecure", "validate", "withcontext", "withexpired", "withfrom",
  "withid", "withissued", "withissuer", "withnoid", "withrefresh", "withstatus", "withsubject", "withuntil">>
VPOps == <<"again", "cbor", "check", "clone", "credbytes", "creds", "cwtclaims", "first", "jwtclaims", "jwtmin", "marshal",
           "signcwt", "signjwt">>
ShopOps == [
  tokens   |-> <<"bbs", "bbsbad", "cwt", "cwt2", "cwt2bad", "cwtbad", "di2", "di2bad", "jwt", "jwt2", "jwt2bad", "jwtbad", "jwtld",
                 "jwtldbad", "ld", "ldbad", "ldpair", "ldpairbad", "sd", "sd2", "sd2bad", "sdbad", "sdrec", "sdrecbad", "unsec",
                 "unsecbad">>,
  sdtools  |-> <<"bound", "issue", "issuevc", "present", "receive", "unknown", "verify">>,
  exchange |-> <<"array", "createvp", "limitvp", "match", "needs", "needslimit", "valid">>,
  algorithms |-> <<"eddsa", "eddsabad", "eddsacwt", "eddsacwtbad", "eddsasign", "es256", "es256bad", "es256cwt", "es256cwtbad",
                   "es256di", "es256dibad", "es256k", "es256kbad", "es256ksign", "es256sign", "es384", "es384bad", "es384cwt",
                   "es384cwtbad", "es384di", "es384dibad", "es384sign", "es521", "es521bad", "es521sign", "ps256", "ps256bad",
                   "ps256cwt", "ps256cwtbad", "ps256sign", "rs256", "rs256bad", "rs256cwt", "rs256cwtbad", "rs256sign">>,
  network  |-> <<"clear", "linked", "nolink", "nolist", "noschema", "other", "resource", "resource2", "revoked", "schema",
                 "unlinked", "wrongres">>]

Arenas == Creds \cup VPs \cup Shops
Ops(a) == IF a \in Creds THEN CredOps ELSE IF a \in VPs THEN VPOps ELSE ShopOps[a]

\* what a network operation fetches, in order, and whether a cache keeps it
Served == {"list1", "list2", "list3", "one", "two", "none", "schema1", "schema2", "r1", "r2"}
Fetches(op) == CASE op \in {"clear", "revoked"} -> <<"list1">> [] op = "other" -> <<"list2">> [] op = "nolist" -> <<"list3">>
                 [] op = "linked" -> <<"one">> [] op = "unlinked" -> <<"two">> [] op = "nolink" -> <<"none">>
                 [] op = "schema" -> <<"schema1">> [] op = "noschema" -> <<"schema1", "schema2">>
                 [] op \in {"resource", "wrongres"} -> <<"r1">> [] op = "resource2" -> <<"r2">>
                 [] OTHER -> << >>
Cached(u) == u \in {"schema1", "schema2", "r1", "r2"}
Exists(u) == u \notin {"list3", "none"}

VARIABLES arena, prog, pc, got, cache, thing, word, ans
vars == <<arena, prog, pc, got, cache, thing, word, ans>>

P == 1..Parties
Answer(op, seen, th) == <<op, seen, th>>      \* the answer depends on what was read and nothing else
Alone(a, op) == Answer(op, [i \in 1..Len(Fetches(op)) |-> IF Exists(Fetches(op)[i]) THEN <<"page", Fetches(op)[i]>> ELSE <<"no", "page">>], a)

\* programs are unordered
Rank(a, p) == \A i \in 1..(Parties - 1) : p[i] <= p[i + 1]
Num(a, p) == LET RECURSIVE H(_) H(i) == IF i = 0 THEN Len(Ops(a)) + Cardinality({x \in Arenas : Len(Ops(x)) > Len(Ops(a))}) ELSE H(i - 1) * 31 + p[i]
             IN H(Parties)

Init == /\ arena \in Arenas
        /\ \E p \in [P -> 1..Len(Ops(arena))] : /\ Rank(arena, p)
                                                 /\ Num(arena, p) % Stride = Offset % Stride
                                                 /\ prog = [i \in P |-> Ops(arena)[p[i]]]
        /\ pc = [i \in P |-> "idle"]
        /\ got = [i \in P |-> << >>]
        /\ cache = {}
        /\ thing = arena
        /\ word = << >>
        /\ ans = [i \in P |-> <<"none">>]

Times(i) == Len(SelectSeq(word, LAMBDA x : x = i))

\* run to the next callback
Work(i) == /\ ~Free
           /\ pc[i] \in {"idle", "held"}
           /\ Times(i) < Calls
           /\ word' = Append(word, i)
           /\ LET n == Len(got[i]) IN
              IF n < Len(Fetches(prog[i]))
                THEN LET u == Fetches(prog[i])[n + 1]
                         page == IF Exists(u) THEN <<"page", u>> ELSE <<"no", "page">> IN
                     /\ got' = [got EXCEPT ![i] = Append(@, IF Cached(u) /\ (\E c \in cache : c[1] = u)
                                                              THEN (CHOOSE c \in cache : c[1] = u)[2] ELSE page)]
                     /\ cache' = IF Cached(u) /\ Exists(u) THEN cache \cup {<<u, page>>} ELSE cache
                ELSE UNCHANGED <<got, cache>>
           /\ pc' = [pc EXCEPT ![i] = "held"]
           /\ UNCHANGED <<arena, prog, thing, ans>>

\* run to the end: what is left to fetch is fetched, the answer is given
Finish(i) == /\ pc[i] # "done"
             /\ pc' = [pc EXCEPT ![i] = "done"]
             /\ ans' = [ans EXCEPT ![i] = Answer(prog[i], [k \in 1..Len(Fetches(prog[i])) |->
                          IF k <= Len(got[i]) THEN got[i][k]
                          ELSE LET u == Fetches(prog[i])[k] IN
                               IF Cached(u) /\ (\E c \in cache : c[1] = u) THEN (CHOOSE c \in cache : c[1] = u)[2]
                               ELSE IF Exists(u) THEN <<"page", u>> ELSE <<"no", "page">>], thing)]
             /\ UNCHANGED <<arena, prog, got, cache, thing, word>>

Fence == \A i \in P : Times(i) = Calls
End == /\ (Free \/ Fence)
       /\ \E i \in P : /\ pc[i] # "done" /\ (\A j \in P : j < i => pc[j] = "done") /\ Finish(i)

Next == (\E i \in P : Work(i)) \/ End

Spec == Init /\ [][Next]_vars

Done == \A i \in P : pc[i] = "done"

Same     == \A i \in P : pc[i] = "done" => ans[i] = Alone(arena, prog[i])
Intact   == thing = arena
Truthful == \A c \in cache : c[2] = <<"page", c[1]>>

Emit == Done => PrintT("@@" \o ToJson([expect |-> "alone", arena |-> arena, prog |-> prog, word |-> word]))
=============================================================================
