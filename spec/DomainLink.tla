----------------------------- MODULE DomainLink -----------------------------
(* Whether a DID configuration links hanna's DID to her domain.              *)
(* The configuration has one entry that varies, and others around it.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"enc", "alg", "model", "issuer", "subject", "form", "origin", "type", "id", "issued", "expires", "signer", "tamper", "header", "payload", "others", "place", "config", "did", "domain", "via">>
Dom0(d) ==
  CASE d = "enc" -> {"jwt", "ld"}
    [] d = "alg" -> {"EdDSA", "ES256"}
    [] d = "model" -> {"v1"}
    [] d = "issuer" -> {"hanna", "object", "mallory", "absent", "web"}
    [] d = "subject" -> {"hanna", "mallory", "absent", "notdid", "empty"}
    [] d = "form" -> {"object", "list", "two", "emptylist", "absent", "text"}
    [] d = "origin" -> {"same", "path", "host", "scheme", "port", "parent", "suffix", "absent", "number", "list", "empty", "bare", "otherbare"}
    [] d = "type" -> {"right", "extra", "missing", "only"}
    [] d = "id" -> {"absent", "present"}
    [] d = "issued" -> {"present", "absent"}
    [] d = "expires" -> {"present", "absent"}
    [] d = "signer" -> {"hanna", "mallory", "forged", "nobody"}
    [] d = "tamper" -> {"none", "origin", "signature", "subject"}
    [] d = "header" -> {"plain", "notyp", "typ", "cty", "jwk", "nokid"}
    [] d = "payload" -> {"plain", "aud", "jti", "sub", "nosub", "iss", "noiss", "custom", "noclaims"}
    [] d = "others" -> {"none", "good", "otherdid", "otherorigin", "badproof", "garbage", "number", "null", "bare"}
    [] d = "place" -> {"first", "last"}
    [] d = "config" -> {"plain", "extra", "nocontext", "contextlist", "nolinked", "linkednull", "linkedobject", "empty", "nothing", "array"}
    [] d = "did" -> {"hanna", "mallory", "longer", "fragment", "empty"}
    [] d = "domain" -> {"same", "slash", "host", "scheme", "port", "sub", "bare", "empty"}
    [] d = "via" -> {"direct", "client", "notfound", "fail", "cut"}
Plain == [enc |-> "jwt", alg |-> "EdDSA", model |-> "v1", issuer |-> "hanna", subject |-> "hanna", form |-> "object", origin |-> "same", type |-> "right", id |-> "absent",
          issued |-> "present", expires |-> "present", signer |-> "hanna", tamper |-> "none", header |-> "plain", payload |-> "plain", others |-> "none", place |-> "first",
          config |-> "plain", did |-> "hanna", domain |-> "same", via |-> "direct"]
Base(b) == CASE b = "jwt" -> Plain
             [] b = "ld" -> [Plain EXCEPT !.enc = "ld", !.via = "client", !.others = "otherdid", !.place = "last"]
             [] b = "es" -> [Plain EXCEPT !.alg = "ES256", !.others = "badproof", !.place = "last", !.issuer = "object", !.header = "notyp"]
             [] b = "bare" -> [Plain EXCEPT !.origin = "bare", !.domain = "bare"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

JWT == c.enc = "jwt"
Sensible ==
  /\ c.header # "plain" => JWT
  /\ c.payload # "plain" => JWT
  /\ c.others = "none" => c.place = "first"
  /\ c.signer = "nobody" => c.tamper # "signature"
  /\ c.form \in {"absent", "text", "emptylist"} => c.subject = "hanna" /\ c.tamper \in {"none", "signature"}
  /\ c.config # "plain" => c.tamper = "none"
\* the origin stated and the domain asked about are the same
SameOrigin == CASE c.origin = "same" -> c.domain = "same"
                [] c.origin = "path" -> c.domain \in {"same"}
                [] c.origin = "host" -> c.domain = "host"
                [] c.origin = "scheme" -> c.domain = "scheme"
                [] c.origin = "port" -> c.domain = "port"
                [] c.origin \in {"bare"} -> c.domain = "bare"
                [] OTHER -> FALSE
Asked == CASE c.did = "hanna" -> "hanna" [] c.did = "mallory" -> "mallory" [] OTHER -> "nobody"
Issuer == CASE JWT /\ c.payload = "iss" -> "mallory"
            [] c.issuer = "object" -> "hanna"
            [] JWT /\ c.payload \in {"noiss", "noclaims"} /\ c.issuer = "absent" -> "absent"
            [] OTHER -> c.issuer
SubjectOk == c.form \in {"object", "list"} /\ c.subject = Asked
TokenOk == JWT => /\ c.header \in {"plain", "notyp"}
                  /\ c.payload = "plain"
ProofOk == c.tamper = "none" /\ c.signer = Issuer /\ c.signer \in {"hanna", "mallory"}
EntryOk == /\ Issuer = Asked /\ SubjectOk /\ c.type \in {"right", "extra"} /\ c.id = "absent"
           /\ c.issued = "present" /\ c.expires = "present" /\ SameOrigin /\ TokenOk /\ ProofOk
\* a linked-data credential must be structurally valid
OtherOk == \/ c.others = "good" /\ c.did = "hanna" /\ c.domain = "same"
           \/ c.others = "otherdid" /\ c.did = "mallory" /\ c.domain = "same"
           \/ c.others = "otherorigin" /\ c.did = "hanna" /\ c.domain = "host"
           \/ c.others = "bare" /\ c.did = "hanna" /\ c.domain = "bare"
ConfigOk == c.config = "plain" /\ c.others \notin {"number", "null"}
Fetched == \/ c.via = "direct"
           \/ c.via = "client" /\ c.domain \notin {"bare", "empty"}
Verdict == IF c.config = "contextlist" \/ c.domain = "slash" \/ (c.origin = "empty" /\ c.domain = "empty") THEN "any"
           ELSE IF c.type = "only" THEN "any"
           ELSE IF ~ConfigOk /\ c.others \in {"number", "null"} THEN (IF EntryOk THEN "any" ELSE "reject")
           ELSE IF Fetched /\ ConfigOk /\ (EntryOk \/ OtherOk) THEN "ok" ELSE "reject"

Linked == (Done /\ Sensible /\ Verdict = "ok" /\ ~OtherOk) => c.signer = Asked /\ c.subject = Asked /\ SameOrigin
BaseOk == (Done /\ dev = <<>>) => Verdict = "ok"
Emit == (Done /\ Sensible /\ Verdict # "any") => PrintT("@@" \o ToJson([expect |-> Verdict, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
