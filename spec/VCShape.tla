------------------------------ MODULE VCShape -------------------------------
(* What a credential states after it was issued in some encoding and parsed  *)
(* back. A credential is a set of facts; each encoding carries a fact in the *)
(* document, in a registered claim, or in both.                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"model", "maker", "enc", "wire", "id", "types", "context", "subject", "issuer", "issued", "expired", "status", "schemas", "evidence", "terms", "refresh", "related", "custom", "again">>
Dom0(d) ==
  CASE d = "model" -> {"v1", "v2"}
    [] d = "maker" -> {"contents", "text"}
    [] d = "enc" -> {"plain", "ld", "di", "jwt", "jwtmin", "unsec", "unsecmin", "sd", "sd5", "cwt"}
    [] d = "wire" -> {"marshal", "bare", "holder", "quoted", "hex"}
    [] d = "id" -> {"absent", "urn", "url"}
    [] d = "types" -> {"two", "one", "onelist", "three"}
    [] d = "context" -> {"base", "inline", "custom", "both", "string"}
    [] d = "subject" -> {"one", "noid", "idonly", "pair", "list", "nested", "text", "numbers", "absent"}
    [] d = "issuer" -> {"string", "object", "idobject", "deepobject", "emptyname", "absent"}
    [] d = "issued" -> {"z", "offset", "msec", "old", "epoch", "absent"}
    [] d = "expired" -> {"absent", "z", "offset", "msec", "old", "epoch", "far"}
    [] d = "status" -> {"none", "one", "two", "onelist", "twins"}
    [] d = "schemas" -> {"none", "one", "two", "twins"}
    [] d = "evidence" -> {"none", "object", "list", "single", "twins", "typeless"}
    [] d = "terms" -> {"none", "one", "two", "noid", "twins"}
    [] d = "refresh" -> {"none", "one"}
    [] d = "related" -> {"none", "one", "two", "multibase", "both", "three"}
    [] d = "custom" -> {"none", "text", "int", "float", "bool", "null", "object", "list", "html", "unicode", "claimname", "empties"}
    [] d = "again" -> {"no", "same", "jwt", "cwt", "ld"}
Plain == [model |-> "v1", maker |-> "text", enc |-> "plain", wire |-> "marshal", id |-> "urn", types |-> "two", context |-> "inline", subject |-> "one", issuer |-> "string",
          issued |-> "z", expired |-> "absent", status |-> "none", schemas |-> "none", evidence |-> "none", terms |-> "none", refresh |-> "none", related |-> "none",
          custom |-> "none", again |-> "no"]
Full == [Plain EXCEPT !.expired = "z", !.status = "one", !.schemas = "two", !.evidence = "list", !.terms = "one", !.refresh = "one", !.custom = "object", !.issuer = "object", !.id = "url"]
Base(b) == CASE b = "plain" -> Plain
             [] b = "full" -> [Full EXCEPT !.maker = "contents"]
             [] b = "jwt" -> [Full EXCEPT !.enc = "jwt"]
             [] b = "jwtmin" -> [Plain EXCEPT !.enc = "jwtmin", !.maker = "contents", !.expired = "offset"]
             [] b = "jwt2" -> [Full EXCEPT !.enc = "jwt", !.model = "v2", !.related = "one"]
             [] b = "jwtmin2" -> [Plain EXCEPT !.enc = "jwtmin", !.model = "v2", !.issuer = "object"]
             [] b = "ld" -> [Full EXCEPT !.enc = "ld"]
             [] b = "di" -> [Full EXCEPT !.enc = "di", !.model = "v2", !.maker = "contents"]
             [] b = "sd" -> [Full EXCEPT !.enc = "sd", !.subject = "nested"]
             [] b = "sd5" -> [Full EXCEPT !.enc = "sd5", !.subject = "nested"]
             [] b = "unsecmin" -> [Full EXCEPT !.enc = "unsecmin"]
             [] b = "cwt" -> [Full EXCEPT !.enc = "cwt", !.subject = "numbers"]
             [] b = "cwt2" -> [Plain EXCEPT !.enc = "cwt", !.model = "v2", !.maker = "contents"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Signed == {"jwt", "jwtmin", "sd", "sd5"}
Unsigned == {"unsec", "unsecmin"}
Tokens == Signed \cup Unsigned
SD == c.enc \in {"sd", "sd5"}
\* shapes that only a document, not typed contents, can have
TextOnly == \/ c.types = "onelist" \/ c.context = "string" \/ c.status = "onelist"
            \/ c.subject \in {"list", "text"} \/ c.issuer = "idobject"
\* documents that the data model's rules reject, in encodings where parsing applies them
Checked == c.enc \in {"plain", "ld", "di"} \cup Unsigned \cup {"cwt"} \/ c.maker = "text" \/ c.again \in {"ld", "cwt"}
Structural ==
  /\ c.issuer = "absent" => c.maker = "contents" /\ c.enc \in Signed \cup {"cwt"}
  /\ c.model = "v1" => /\ c.subject # "absent" /\ c.issued # "absent"
                       /\ c.status \notin {"two", "onelist", "twins"} /\ c.evidence # "typeless"
  /\ c.model = "v2" => /\ c.evidence # "typeless" /\ c.context # "string"
                       /\ c.subject \notin {"absent", "text"}
Sensible ==
  /\ c.maker = "contents" => ~TextOnly
  /\ Checked => Structural
  /\ c.wire \in {"bare", "quoted", "hex"} => c.enc \in Tokens \cup {"cwt"}
  /\ c.wire = "holder" => c.enc \in {"jwt", "jwtmin", "unsec", "unsecmin"}
  /\ c.wire = "hex" => c.enc = "cwt"
  /\ c.wire = "quoted" => c.enc # "cwt"
  /\ c.related # "none" => c.model = "v2"
  \* a subject with nothing but an ID conceals nothing; empty objects are not displayed
  /\ SD => c.subject # "text"
  \* such tokens have the credential's members next to the registered claims
  /\ c.enc = "sd5" => c.custom # "claimname"
  /\ c.issuer = "absent" => c.again = "no"
  \* linked-data signing needs members it can expand
  /\ c.enc \in {"ld", "di"} \/ c.again = "ld" => c.custom \notin {"claimname"} /\ c.context # "base" /\ c.context # "string" /\ (c.context = "custom" => c.model = "v2")
  /\ c.context = "string" => c.enc \notin {"di"} /\ c.again # "ld"
  /\ c.again # "no" => c.enc \notin {"sd", "sd5"} \/ c.again = "same"

\* A token names one subject by its ID; the rest of the credential may say more.
OneSubject == c.subject \notin {"noid", "pair", "absent"}
\* Claims of one subject object are made selectively disclosable.
Refused == \/ SD /\ c.subject = "list"
           \/ c.enc \notin {"plain", "ld", "di"} /\ ~OneSubject
           \/ c.again \in {"jwt", "cwt"} /\ ~OneSubject
\* Claims of JSON Web Tokens are counted in seconds.
Seconds == c.enc \in Tokens \/ c.again = "jwt"
\* How each fact travels: in the document ("doc"), in a claim ("claim"), or in both.
Minimal == c.enc \in {"jwtmin", "unsecmin"}
Carrier(f) == IF c.enc \notin Tokens THEN "doc"
              ELSE IF f \in {"id", "issued", "expired", "issuer"} THEN (IF Minimal THEN "claim" ELSE "both")
              ELSE "doc"
Verdict == IF Refused THEN "refuse" ELSE IF c.issuer = "absent" THEN "unproven" ELSE IF Seconds THEN "seconds" ELSE "exact"

Facts == {"id", "types", "context", "subject", "issuer", "issued", "expired", "status", "schemas", "evidence", "terms", "refresh", "related", "custom"}
NothingLost == (Done /\ Sensible /\ Verdict \notin {"refuse", "unproven"}) => \A f \in Facts : Carrier(f) \in {"doc", "claim", "both"}
OnlyDatesRounded == (Done /\ Sensible /\ Verdict = "exact") => \A f \in {"issued", "expired"} : Carrier(f) = "doc"
BaseOk == (Done /\ dev = <<>>) => Verdict # "refuse" /\ Sensible
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> Verdict, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
