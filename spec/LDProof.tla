------------------------------ MODULE LDProof -------------------------------
(* Which documents with embedded linked-data proofs count as proven.  alice  *)
(* publishes two methods, "own" and "second", and a key-agreement method;    *)
(* mallory publishes one.  A base names a signature suite, a key algorithm   *)
(* and a signature representation.                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K
VARIABLES c, last, dev, base, pc

Order0 == <<"entry", "vm", "kid", "signer", "iss", "set", "doc", "opt">>
Dom0(d) ==
  CASE d = "entry" -> {"parse", "strict", "recheck", "document", "documentnil"}
    [] d = "vm" -> {"jwk", "native", "nativejwk", "jwkbytes", "foreign", "otherkey"}
    [] d = "kid" -> {"own", "second", "inside", "agreement", "embedded", "mallory", "unknown", "upper", "fragment", "bare", "absent", "creator"}
    [] d = "signer" -> {"own", "second", "mallory"}
    [] d = "iss" -> {"alice", "aliceobject", "mallory", "nobody"}
    [] d = "set" -> {"one", "two", "firstbad", "secondbad", "secondforeign", "secondtype", "firsttype", "seconddi", "firstdi",
                     "empty", "null", "absent", "string", "number", "listofstring"}
    [] d = "doc" -> {"none", "reorder", "setorder", "undefined", "subundefined",
                     "id", "noid", "issued", "expires", "noexpires", "subject", "nosubject", "claim", "claimtype", "noclaim", "addclaim",
                     "nested", "addnested", "listorder", "listdrop", "setdrop", "types", "notype", "status", "context", "lang"}
    [] d = "opt" -> {"none", "undefined", "created", "purpose", "nopurpose", "domain", "nodomain", "challenge", "nochallenge", "vm", "type",
                     "bit", "short", "long", "dertail", "other", "empty", "nosig"}
Plain == [entry |-> "parse", vm |-> "jwk", kid |-> "own", signer |-> "own", iss |-> "alice", set |-> "one", doc |-> "none", opt |-> "none"]
Suites == {"ed18v", "ed18j", "ed20v", "jwsEd", "jwsP256", "jwsP384", "jwsP521", "jwsK256", "jwsRSA", "jwsEdv", "k256v", "k256j", "bbs", "bbsderived"}
Base(b) == IF b \in {"bbs", "bbsderived"} THEN [Plain EXCEPT !.vm = "native"] ELSE Plain
CONSTANT Use
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

\* forms of a published method that make its key usable with the suite
Usable == CASE base \in {"jwsEd", "jwsP256", "jwsP384", "jwsP521", "jwsK256", "jwsRSA", "jwsEdv"} -> c.vm = "jwk" \/ (c.vm = "nativejwk" /\ base \in {"jwsP256", "jwsP384", "jwsP521"})
            [] base \in {"ed18v", "ed18j", "ed20v", "k256v", "k256j"} -> c.vm \in {"jwk", "native", "nativejwk"}
            [] base = "bbs" -> c.vm = "native"
            [] base = "bbsderived" -> c.vm = "native"
IsNil == c.entry = "documentnil"
\* DID whose document is consulted
Issuer == IF ~IsNil THEN CASE c.iss \in {"alice", "aliceobject"} -> "alice" [] OTHER -> c.iss
          ELSE CASE c.kid \in {"own", "second", "inside", "agreement", "embedded", "unknown", "creator", "bare"} -> "alice"
                 [] c.kid = "mallory" -> "mallory" [] OTHER -> "nobody"
Named == CASE Issuer = "alice" /\ c.kid \in {"own", "creator", "inside"} -> "own"
           [] Issuer = "alice" /\ c.kid = "second" -> "second"
           [] Issuer = "mallory" /\ c.kid = "mallory" -> "mallory"
           [] OTHER -> "none"
\* the further proof, where there is one
SetOk == CASE c.set = "one" -> TRUE
           [] c.set = "two" -> IsNil \/ Issuer = "alice"
           [] c.set = "secondforeign" -> IsNil \/ Issuer = "mallory"
           [] OTHER -> FALSE
\* changes that keep every statement the document makes under its contexts
SameMeaning == c.doc \in {"none", "reorder", "setorder"} \/ (c.doc \in {"undefined", "subundefined"} /\ c.entry # "strict")
SameOptions == c.opt = "none" \/ (c.opt = "undefined" /\ c.entry # "strict")
\* strict validation also refuses the legacy member "creator", which these suites' contexts do not define
Defined == c.entry = "strict" => c.kid # "creator"
Proven == Usable /\ Named # "none" /\ c.signer = Named /\ SetOk /\ SameMeaning /\ SameOptions /\ Defined

AuthenticIssuer == (Done /\ Proven /\ ~IsNil /\ c.iss = "alice") => c.signer \in {"own", "second"}
AtLeastOneProof == (Done /\ Proven) => c.set \notin {"empty", "null", "absent", "string", "number", "listofstring"}
BaseOk == (Done /\ dev = <<>>) => Proven
\* the plain contexts do not define all members of a JsonWebSignature2020 proof, so strict validation refuses them
\* a derived document does not carry what was not revealed
Sensible == /\ c.entry = "strict" => base \notin {"jwsEd", "jwsP256", "jwsP384", "jwsP521", "jwsK256", "jwsRSA", "jwsEdv"}
            \* (and the BBS library ignores bytes after a derived proof)
            /\ base = "bbsderived" => c.kid # "creator" /\ c.opt \notin {"nodomain", "nochallenge", "long", "dertail"} /\ c.doc \notin {"nested", "addnested", "noexpires", "listorder", "listdrop"}
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> (IF Proven THEN "ok" ELSE "reject"), base |-> base, dev |-> dev, c |-> c]))
=============================================================================
