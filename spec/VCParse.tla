------------------------------ MODULE VCParse -------------------------------
(* Which credentials parsing accepts, whatever encoding they arrive in.       *)
(* alice owns keys "own" and "second"; "forged" is mallory's key under        *)
(* alice's key identifier.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"alg", "model", "wrap", "media", "signer", "issuer", "iss", "set", "inner", "tamper", "checks", "via">>
Dom0(d) ==
  CASE d = "alg" -> {"EdDSA", "ES256"}
    [] d = "model" -> {"v1", "v2"}
    [] d = "wrap" -> {"none", "quoted", "member", "envelope", "envelopelist", "dressed", "hex", "space"}
    [] d = "media" -> {"right", "cose", "jwt", "sdjwt", "unknown", "none"}
    [] d = "signer" -> {"own", "second", "mallory", "forged", "nobody"}
    [] d = "issuer" -> {"alice", "object", "mallory", "absent", "web", "malloryobject", "aliceurl", "prefix"}
    [] d = "iss" -> {"same", "absent", "empty", "alice", "mallory", "web", "aliceurl", "prefix"}
    [] d = "set" -> {"one", "empty", "null", "emptyobject", "text", "two", "twobad", "badtwo"}
    [] d = "inner" -> {"none", "junk", "good"}
    [] d = "tamper" -> {"none", "content", "signature", "altered", "foreign", "dropped", "added"}
    [] d = "checks" -> {"all", "ld", "di", "jwt", "cwt", "none", "off"}
    [] d = "via" -> {"parse", "recheck"}
Plain == [enc |-> "jwt", alg |-> "EdDSA", model |-> "v1", wrap |-> "none", media |-> "right", signer |-> "own", issuer |-> "alice", iss |-> "same",
          set |-> "one", inner |-> "none", tamper |-> "none", checks |-> "all", via |-> "parse"]
Base(b) == CASE b = "ld" -> [Plain EXCEPT !.enc = "ld"]
             [] b = "di" -> [Plain EXCEPT !.enc = "di", !.model = "v2"]
             [] b = "ldjwt" -> [Plain EXCEPT !.enc = "ldjwt"]
             [] b = "dijwt" -> [Plain EXCEPT !.enc = "dijwt", !.alg = "ES256"]
             [] b = "jwt" -> Plain
             [] b = "jwt2" -> [Plain EXCEPT !.wrap = "envelope", !.model = "v2"]
             [] b = "min" -> [Plain EXCEPT !.enc = "min", !.alg = "ES256"]
             [] b = "sd" -> [Plain EXCEPT !.enc = "sd"]
             [] b = "sd5" -> [Plain EXCEPT !.enc = "sd5", !.model = "v2", !.wrap = "envelope"]
             [] b = "cwt" -> [Plain EXCEPT !.enc = "cwt"]
             [] b = "cwt2" -> [Plain EXCEPT !.enc = "cwt", !.model = "v2", !.wrap = "envelope"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Embedded == c.enc \in {"ld", "di", "ldjwt", "dijwt"}  \* proof inside the document
Unsec == c.enc \in {"ldjwt", "dijwt"}                 \* ... which is carried by a token without signature
Token == c.enc \in {"jwt", "min", "sd", "sd5"}
SD == c.enc \in {"sd", "sd5"}
Needs == CASE c.enc \in {"ld", "ldjwt"} -> "ld" [] c.enc \in {"di", "dijwt"} -> "di" [] c.enc = "cwt" -> "cwt" [] OTHER -> "jwt"
InEnvelope == c.wrap \in {"envelope", "envelopelist", "dressed"}
\* dimensions that mean something for the encoding
Sensible ==
  /\ c.iss # "same" => Token \/ Unsec
  /\ c.set # "one" => Embedded
  /\ c.inner # "none" => ~Embedded
  /\ c.media # "right" => InEnvelope
  /\ c.tamper \in {"altered", "foreign", "dropped", "added"} => SD
  /\ c.signer = "nobody" => c.enc # "cwt" \/ c.tamper # "signature"
  /\ c.wrap = "hex" => c.enc = "cwt"
  /\ c.wrap \in {"quoted", "member", "space"} => Token \/ Unsec
  /\ (Embedded /\ ~Unsec) => ~InEnvelope
  /\ InEnvelope => ~Unsec
  /\ (Embedded /\ c.set \in {"empty", "null", "emptyobject", "text"}) => c.signer = "own" /\ c.tamper = "none"
  /\ c.via = "recheck" => c.checks # "off"
\* ----- the issuer that the accepted credential states
Stated == CASE c.issuer \in {"alice", "object"} -> "alice" [] c.issuer \in {"mallory", "malloryobject"} -> "mallory" [] OTHER -> c.issuer
Iss == IF ~(Token \/ Unsec) \/ c.iss \in {"absent", "empty"} THEN "absent"
       ELSE IF c.iss = "same" THEN (IF c.enc = "min" /\ Stated = "absent" THEN "absent" ELSE Stated) ELSE c.iss
Member == IF c.enc = "min" THEN "absent" ELSE Stated
IsDID(x) == x \in {"alice", "mallory", "aliceurl", "prefix"}
Conflict == IsDID(Iss) /\ IsDID(Member) /\ Iss # Member
Issuer == IF Iss # "absent" THEN Iss ELSE Member
\* a linked-data proof covers the document as it stands after the claims were merged into it
Same == (Unsec => (Iss \in {"absent", Stated}))
SignedBy == CASE c.signer \in {"own", "second"} -> "alice" [] c.signer = "mallory" -> "mallory" [] OTHER -> "nobody"
EmbedOk == CASE c.set = "one" -> SignedBy = Issuer
             [] c.set = "two" -> SignedBy = Issuer
             [] OTHER -> FALSE
Carrier == \* can the bytes be read as this encoding at all
  /\ ~(InEnvelope /\ c.media \in {"unknown", "none"})
  /\ InEnvelope => CASE c.enc = "cwt" -> c.media \in {"right", "cose"}
                      [] Token -> c.media \in {"right", "jwt", "sdjwt"}
                      [] OTHER -> FALSE
\* a leading or trailing blank does not belong to a token
  /\ c.wrap # "space"
Proven ==
  /\ c.checks \in {"all", Needs}
  /\ Issuer # "absent"
  /\ IF Embedded THEN EmbedOk /\ Same /\ c.tamper = "none" ELSE SignedBy = Issuer /\ c.tamper \in {"none", "dropped"}
Verdict ==
  IF (c.signer = "nobody" /\ c.inner = "good") \/ c.tamper = "added" THEN "any" ELSE IF ~Carrier \/ Conflict \/ c.tamper \in {"foreign", "altered", "added"} THEN "reject"
  ELSE IF c.checks = "off" /\ c.via = "parse" THEN (IF Issuer = "absent" \/ c.set \in {"text", "emptyobject", "empty", "null"} \/ (c.signer = "nobody" /\ ~Embedded) THEN "any" ELSE "ok")
  ELSE IF Proven THEN "ok" ELSE "reject"

\* credentials accepted with checking on carry the signature of the issuer they show
AuthenticIssuer == (Done /\ Sensible /\ Verdict = "ok" /\ (c.checks # "off" \/ c.via = "recheck")) => SignedBy = Issuer /\ c.checks # "none"
BaseOk == (Done /\ dev = <<>>) => Verdict = "ok"
Emit == (Done /\ Sensible /\ Verdict # "any") => PrintT("@@" \o ToJson([expect |-> Verdict, issuer |-> Issuer, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
