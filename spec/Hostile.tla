------------------------------- MODULE Hostile -------------------------------
(* Documents of another party, and what may have happened to them on the way or in that party's mind.

   A target is something that a user of the library receives: a credential or presentation in one of the encodings, a
   status entry or list, a domain configuration, a presentation definition or submission, a schema, a DID document, a
   context. Its document is a set of positions, each holding a value of a kind. The adversary edits positions, and may
   also spoil the bytes that the document became. The library then answers. It may always answer with an error; where
   the document lacks what its own rules demand, it must. It never answers with a crash and always answers.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, HostileDocs

CONSTANTS MaxEdits, MaxSpoils, Targets, Combine

VARIABLES target, doc, edits, spoils

vars == <<target, doc, edits, spoils>>

\* What an edit leaves behind at a position. ("Variants" apply to text only.)
Always == {"gone", "null", "true", "zero", "neg", "big", "large", "frac", "empty", "word", "url", "date", "did", "hash", "frag",
  "colon", "pct", "nul", "z", "u", "dots", "tildes", "b64", "keyword", "blank", "unicode", "data", "databad", "long",
  "obj", "list", "wrap", "wrapid", "wraptype", "value", "set", "ldlist", "graph", "reverse", "context", "included", "idnum",
  "nulls", "nest", "mixed", "twice", "deep", "deepobj", "many"}
Variants == {"half", "cut1", "longer", "double", "flip", "dotless", "spaced", "upper", "nofrag"}

Becomes(m) ==
  CASE m = "gone" -> "gone"
    [] m = "null" -> "null"
    [] m = "true" -> "flag"
    [] m \in {"zero", "neg", "big", "large", "frac"} -> "number"
    [] m = "empty" -> "empty"
    [] m \in {"obj", "wrapid", "wraptype", "value", "set", "ldlist", "graph", "reverse", "context", "included", "idnum", "deepobj"} -> "object"
    [] m \in {"list", "wrap", "nulls", "nest", "mixed", "twice", "deep", "many"} -> "list"
    [] OTHER -> "text"

Whole(t) == [p \in {Docs[t][i].p : i \in 1..Len(Docs[t])} |-> (CHOOSE i \in 1..Len(Docs[t]) : Docs[t][i].p = p)]
Kinds(t) == LET w == Whole(t) IN [p \in DOMAIN w |-> Docs[t][w[p]].k]

Under(p, q) == Len(q) > Len(p) /\ SubSeq(q, 1, Len(p)) = p
Front(p) == SubSeq(p, 1, Len(p) - 1)

\* Positions that keep their meaning after an edit at p: those below p are gone, and where an item of a list is gone
\* the items behind it move.
Left(d, p, m) ==
  {q \in DOMAIN d : /\ ~Under(p, q)
                    /\ ~(m = "gone" /\ q = p)
                    /\ ~(m = "gone" /\ Len(p) > 0 /\ d[Front(p)] = "list" /\ Under(Front(p), q))}

Edited(d, p, m) == [q \in Left(d, p, m) |-> IF q = p THEN Becomes(m) ELSE d[q]]

---------------------------------------------------------------------------
(* What the rules of each kind of document demand: at these positions a value of these kinds. *)
V1 == {<<<<"@context">>, {"text", "list"}>>, <<<<"type">>, {"text", "list"}>>, <<<<"issuer">>, {"text", "object"}>>,
       <<<<"issuanceDate">>, {"text"}>>, <<<<"credentialSubject">>, {"object", "list", "text"}>>}
V2 == {<<<<"@context">>, {"text", "list"}>>, <<<<"type">>, {"text", "list"}>>, <<<<"issuer">>, {"text", "object"}>>,
       <<<<"credentialSubject">>, {"object", "list", "text"}>>}
VP == {<<<<"@context">>, {"text", "list"}>>, <<<<"type">>, {"text", "list"}>>}
In(path, demands) == {<<path \o d[1], d[2]>> : d \in demands}
Token == {<<<<"header">>, {"object"}>>, <<<<"header", "alg">>, {"text"}>>, <<<<"payload">>, {"object"}>>}

Demands(t) ==
  CASE t \in {"plain", "ld", "ldpair", "bbs", "bbsd"} -> V1
    [] t \in {"plain2", "di2"} -> V2
    [] t = "jwt" -> Token \union In(<<"payload", "vc">>, V1 \ {<<<<"issuanceDate">>, {"text"}>>, <<<<"issuer">>, {"text", "object"}>>})
    [] t = "jwtld" -> Token
    [] t = "unsec" -> Token
    [] t \in {"sd", "sdrec"} -> Token \union {<<<<"payload", "_sd_alg">>, {"text", "gone"}>>}
    [] t = "sdkb" -> Token \union {<<<<"kb", "header">>, {"object"}>>, <<<<"kb", "payload">>, {"object"}>>, <<<<"kb", "payload", "nonce">>, {"text"}>>,
          <<<<"kb", "payload", "aud">>, {"text", "list"}>>, <<<<"payload", "cnf">>, {"object"}>>, <<<<"payload", "cnf", "jwk">>, {"object"}>>}
    [] t \in {"cwt", "cwt2"} -> {<<<<"header">>, {"object"}>>, <<<<"header", "1">>, {"number"}>>, <<<<"payload">>, {"object"}>>}
    [] t \in {"env", "envsd", "envvp"} -> {<<<<"id">>, {"text"}>>, <<<<"type">>, {"text", "list"}>>}
    [] t \in {"vp", "vp2", "vpld", "vpdi2"} -> VP
    [] t = "vpjwt" -> Token \union In(<<"payload", "vp">>, VP)
    [] t = "vpcwt" -> {<<<<"header">>, {"object"}>>, <<<<"payload">>, {"object"}>>}
    [] t \in {"pd", "pdold"} -> LET pd == <<"presentation_definition">> IN
         {<<pd, {"object"}>>, <<pd \o <<"id">>, {"text"}>>, <<pd \o <<"input_descriptors">>, {"list"}>>,
          <<pd \o <<"input_descriptors", "0", "id">>, {"text"}>>}
    [] t = "sub" -> LET s == <<"submission">> IN
         {<<s, {"object"}>>, <<s \o <<"descriptor_map">>, {"list"}>>, <<s \o <<"descriptor_map", "0">>, {"object"}>>,
          <<s \o <<"descriptor_map", "0", "id">>, {"text"}>>, <<s \o <<"descriptor_map", "0", "path">>, {"text"}>>}
    [] t = "hub" -> {<<<<"url">>, {"text"}>>, <<<<"queries">>, {"list"}>>, <<<<"did">>, {"object"}>>, <<<<"reply">>, {"object"}>>,
          <<<<"reply", "replies">>, {"list"}>>, <<<<"reply", "replies", "0", "entries", "1", "data">>, {"text"}>>}
    [] t = "config" -> {<<<<"@context">>, {"text", "empty", "null"}>>, <<<<"linked_dids">>, {"list"}>>}
    [] t = "keys" -> {<<<<"id">>, {"text"}>>, <<<<"verificationMethod", "0", "id">>, {"text"}>>}
    [] t \in {"listBitstringStatusList", "listStatusList2021"} ->
         {<<<<"payload", "vc", "credentialSubject", "encodedList">>, {"text"}>>, <<<<"payload", "vc", "credentialSubject">>, {"object", "list"}>>}
    [] t = "entryBitstringStatusList" -> {<<<<"type">>, {"text"}>>, <<<<"statusListIndex">>, {"text"}>>, <<<<"statusListCredential">>, {"text"}>>, <<<<"statusPurpose">>, {"text"}>>}
    [] t = "entryStatusList2021" -> {<<<<"type">>, {"text"}>>, <<<<"statusListIndex">>, {"text"}>>, <<<<"statusListCredential">>, {"text"}>>, <<<<"statusPurpose">>, {"text"}>>}
    [] t = "date" -> {<<<<>>, {"text", "null", "gone"}>>}
    [] OTHER -> {}

\* Positions with an optional member: if it is there, it is one of these.
Optional(t) ==
  CASE t \in {"plain", "ld", "ldpair"} -> {<<<<"id">>, {"text"}>>, <<<<"expirationDate">>, {"text"}>>}
    [] t \in {"plain2", "di2"} -> {<<<<"id">>, {"text"}>>, <<<<"validFrom">>, {"text"}>>, <<<<"validUntil">>, {"text"}>>}
    [] t \in {"vp", "vp2", "vpld", "vpdi2"} -> {<<<<"id">>, {"text"}>>}
    [] t \in {"pd", "pdold"} -> {<<<<"presentation_definition", "input_descriptors", "0", "constraints", "fields", "0", "path">>, {"list"}>>}
    [] OTHER -> {}

KindAt(d, p) == IF p \in DOMAIN d THEN d[p] ELSE "gone"
\* A demand can be judged unless an edit above it put something there whose members this model does not follow.
Wrapped(p) == \E i \in 1..Len(edits) : Under(edits[i].p, p) /\ edits[i].m \in {"wrapid", "wraptype", "value", "set", "ldlist", "graph", "reverse",
                                          "context", "included", "idnum", "wrap", "nest", "mixed", "twice", "many", "deep", "deepobj"}
Moved(p) == \E i \in 1..Len(edits) : /\ edits[i].m = "gone" /\ Len(edits[i].p) > 0 /\ Under(Front(edits[i].p), p)
                                     /\ Kinds(target)[Front(edits[i].p)] = "list"
Lacking == \/ \E x \in Demands(target) : ~Wrapped(x[1]) /\ ~Moved(x[1]) /\ KindAt(doc, x[1]) \notin x[2]
           \/ \E x \in Optional(target) : ~Wrapped(x[1]) /\ ~Moved(x[1]) /\ KindAt(doc, x[1]) \notin (x[2] \union {"gone"})

\* Half a message is no message. (Half an SD-JWT can be one with fewer disclosures, and the proofs of status lists are not checked.)
Torn == \E i \in 1..Len(spoils) : spoils[i].op = "cut"
WhollyTorn == Torn /\ target \notin {"sd", "sdrec", "sdkb", "date", "listBitstringStatusList", "listStatusList2021"}

Expect == IF Lacking \/ (WhollyTorn /\ Len(spoils) = 1) THEN "error" ELSE IF edits = <<>> /\ spoils = <<>> THEN "result" ELSE "any"

---------------------------------------------------------------------------
Init == /\ target \in (IF Targets = {} THEN DOMAIN Docs ELSE Targets)
        /\ doc = Kinds(target)
        /\ edits = <<>> /\ spoils = <<>>

Edit(p, m) == /\ Len(edits) < MaxEdits /\ spoils = <<>>
              /\ m \in Variants => doc[p] = "text"
              /\ doc' = Edited(doc, p, m)
              /\ edits' = Append(edits, [p |-> p, m |-> m])
              /\ UNCHANGED <<target, spoils>>

Ops == {"cut", "head", "drop", "dup", "swap", "nul", "ff", "tilde", "dot", "quote", "open", "close", "bom", "hole", "zeros", "length",
        "bytes", "tag", "members", "deep", "deepcbor", "longer", "quoted"}
\* Where in the bytes, in sixteenths; ops on the whole have one place.
Places(op) == IF op \in {"dup", "members", "quoted"} THEN {0} ELSE IF op = "cut" THEN 0..15 ELSE 0..16

Spoil(op, at) == /\ Len(spoils) < MaxSpoils /\ (Combine \/ edits = <<>>)
                 /\ spoils' = Append(spoils, [op |-> op, at |-> at])
                 /\ UNCHANGED <<target, doc, edits>>

DoEdit == \E p \in DOMAIN doc, m \in Always \union Variants : Edit(p, m)
DoSpoil == \E op \in Ops : \E at \in Places(op) : Spoil(op, at)
Next == DoEdit \/ DoSpoil
Spec == Init /\ [][Next]_vars

\* A document is well formed as a tree at every time: what is below something is below an object or a list.
Tree == \A q \in DOMAIN doc : Len(q) > 0 => (Front(q) \in DOMAIN doc /\ doc[Front(q)] \in {"object", "list"})
\* Nothing that the adversary did makes an unchanged document unacceptable, and a lack comes from an edit.
LackNeedsEdit == Lacking => edits # <<>>

Emit ==
          PrintT("@@" \o ToJson([target |-> target, n |-> Len(Docs[target]), edits |-> edits, raw |-> spoils, expect |-> Expect]))
=============================================================================
