----------------------------- MODULE BBSDerive ------------------------------
(* Selective disclosure with BBS+ signatures.  An issuer signs a credential,  *)
(* its holder derives one that shows a selection of the claims, and a         *)
(* verifier gets either of them, perhaps changed on the way.                  *)
(* Subject: a, b, n: {x, y}, m: {x, y}, l: [p, q]; the credential: until.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Leaves == {"a", "b", "nx", "ny", "mx", "my", "p", "q", "until"}
Order0 == <<"sent", "api", "subject", "reveal", "val", "made", "by", "again", "nonce", "doc", "edit">>
Selections == {"none", "a", "ab", "nx", "ny", "nxmy", "nxmx", "n", "nm", "l", "until", "auntil", "all"}
Dom0(d) ==
  CASE d = "sent" -> {"derived", "signed"}
    [] d = "api" -> {"direct", "limit", "frame", "document"}
    [] d = "subject" -> {"named", "blank"}
    [] d = "reveal" -> Selections
    [] d = "val" -> {"text", "quote", "newline", "unicode", "blank", "long", "same", "number", "truth", "empty", "iri"}
    [] d = "made" -> {"bare", "domain", "challenge", "auth", "fraction", "offset"}     \* options of the signature
    [] d = "by" -> {"own", "forged", "mallory", "nobody"}
    [] d = "again" -> {"none", "own", "other", "forged", "twice"}  \* a second signature: by the same key, a linked-data proof of another suite, forged; twice: derived from what was derived
    [] d = "nonce" -> {"short", "empty", "long", "zeros"}
    [] d = "doc" -> {"none", "order", "change", "add", "append", "reveal", "drop", "issuer", "issued", "type", "swap", "subject"}
    [] d = "edit" -> {"none", "nonce", "created", "vm", "purpose", "bit", "flag", "short", "nosig", "other", "type", "strip", "empty", "foreign"}
Plain == [sent |-> "derived", api |-> "direct", subject |-> "named", reveal |-> "a", val |-> "text", made |-> "bare", by |-> "own", again |-> "none", nonce |-> "short", doc |-> "none", edit |-> "none"]
Base(b) == CASE b = "one" -> Plain
             [] b = "nested" -> [Plain EXCEPT !.reveal = "nxmy", !.nonce = "long"]
             [] b = "twin" -> [Plain EXCEPT !.reveal = "nxmx", !.val = "same"]
             [] b = "list" -> [Plain EXCEPT !.reveal = "l", !.api = "document"]
             [] b = "pex" -> [Plain EXCEPT !.reveal = "nxmy", !.api = "limit"]
             [] b = "signed" -> [Plain EXCEPT !.sent = "signed", !.reveal = "all"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Sel(r) == CASE r = "none" -> {} [] r = "a" -> {"a"} [] r = "ab" -> {"a", "b"} [] r = "nx" -> {"nx"} [] r = "ny" -> {"ny"} [] r = "nxmy" -> {"nx", "my"}
            [] r = "nxmx" -> {"nx", "mx"} [] r = "n" -> {"nx", "ny"} [] r = "nm" -> {"nx", "ny", "mx", "my"} [] r = "l" -> {"p", "q"} [] r = "until" -> {"until"} [] r = "auntil" -> {"a", "until"}
            [] OTHER -> Leaves
Shown == IF c.sent = "signed" THEN Leaves ELSE Sel(c.reveal)
\* what the verifier is sent was signed like this
Whole == c.doc \in {"none", "order"}
Signed == c.by = "own" /\ c.again \in {"none", "own", "other"}
Proven == Whole /\ Signed /\ c.edit = "none"
Refused == c.again = "twice"               \* what is derived has no signature to derive from

NothingHidden == (Done /\ c.sent = "derived" /\ c.reveal # "all") => Shown # Leaves
EditsTell == (Done /\ (c.edit # "none" \/ ~Whole)) => ~Proven
BaseOk == (Done /\ dev = <<>>) => Proven

Sensible ==
  /\ c.sent = "signed" => c.api = "direct" /\ c.nonce = "short" /\ c.reveal = "all" /\ c.again # "twice" /\ c.doc \notin {"reveal"} /\ c.edit # "nonce"
  /\ c.doc = "change" => Shown \ {"until"} # {}
  /\ c.doc = "drop" => Shown # {}
  /\ c.doc = "reveal" => "b" \notin Shown
  /\ c.doc = "swap" => {"nx", "my"} \subseteq Shown \/ {"a", "b"} \subseteq Shown
  /\ c.doc = "swap" => c.val # "same"
  /\ c.doc \in {"subject", "add", "reveal"} => Shown \ {"until"} # {}
  \* framing (a dependency) loses nodes without identifiers inside others
  /\ (c.sent = "derived" /\ c.subject = "blank") => Shown \subseteq {"a", "b", "p", "q", "until"}
  \* and takes this for the identifier of such a node
  /\ c.sent = "derived" => c.val # "blank"
  /\ c.subject = "blank" => c.doc # "subject"
  /\ c.edit = "flag" => c.sent = "derived"
  /\ c.by = "nobody" => c.again = "none"
  /\ c.api = "limit" => c.nonce = "short" /\ c.reveal # "none" /\ c.again # "twice"
  /\ c.api = "frame" => c.again # "twice"
  /\ c.api = "document" => c.again # "twice"
Verdict == IF Refused THEN "refuse" ELSE IF Proven THEN "ok" ELSE "reject"
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> Verdict, shown |-> Shown, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
