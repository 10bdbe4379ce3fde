----------------------------- MODULE Structure ------------------------------
(* The data model's structural rules and the schemas a credential refers to.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"model", "call", "option", "id", "context", "type", "issuer", "subject", "from", "until", "status", "schema", "evidence", "terms", "refresh", "proof", "extra">>
Dom0(d) ==
  CASE d = "model" -> {"v1", "v2"}
    [] d = "call" -> {"json", "unsecured", "object", "cwt", "envelopedcwt", "jwt", "validatejwt", "validatecwt", "validatejson", "created"}
    [] d = "option" -> {"plain", "noschemas", "own", "ownloader", "disabled", "base", "extended", "extendedtight", "ldonly"}
    [] d = "id" -> {"urn", "absent", "number", "relative"}
    [] d = "context" -> {"list", "string", "absent", "empty", "otherfirst", "otheronly", "twice"}
    [] d = "type" -> {"two", "one", "onelist", "absent", "empty", "other", "otherlist", "number"}
    [] d = "issuer" -> {"text", "object", "absent", "nameless", "number", "plainword"}
    [] d = "subject" -> {"one", "two", "onelist", "text", "absent", "emptyobject", "emptylist", "number", "listwithempty", "idnumber"}
    [] d = "from" -> {"time", "absent", "dateonly", "word", "number", "offset"}
    [] d = "until" -> {"absent", "time", "dateonly", "word", "number", "null"}
    [] d = "status" -> {"absent", "one", "noid", "notype", "list", "text", "null"}
    [] d = "schema" -> {"absent", "holds", "fails", "both", "firstfails", "secondfails", "unknown", "unknownthenfails", "failsthenunknown", "credentialtype", "missing", "missingsecond", "notjson",
                        "json18holds", "json18fails", "noid", "notype", "looserholds", "loosefails"}
    [] d = "evidence" -> {"absent", "full", "typeonly", "idonly", "list", "text", "listidonly"}
    [] d = "terms" -> {"absent", "full", "noid", "notype", "list"}
    [] d = "refresh" -> {"absent", "full", "noid", "notype"}
    [] d = "proof" -> {"absent", "good", "notype", "list", "text"}
    [] d = "extra" -> {"absent", "text"}
Plain == [model |-> "v1", call |-> "json", option |-> "plain", id |-> "urn", context |-> "list", type |-> "two", issuer |-> "text", subject |-> "one", from |-> "time", until |-> "absent",
          status |-> "absent", schema |-> "absent", evidence |-> "absent", terms |-> "absent", refresh |-> "absent", proof |-> "absent", extra |-> "text"]
Base(b) == CASE b = "v1" -> Plain
             [] b = "v2" -> [Plain EXCEPT !.model = "v2"]
             [] b = "schema" -> [Plain EXCEPT !.schema = "both"]
             [] b = "schema2" -> [Plain EXCEPT !.model = "v2", !.schema = "holds", !.call = "cwt"]
             [] b = "full" -> [Plain EXCEPT !.status = "one", !.evidence = "full", !.terms = "full", !.refresh = "full", !.until = "time", !.proof = "good"]
             [] b = "full2" -> [Plain EXCEPT !.model = "v2", !.status = "one", !.evidence = "list", !.terms = "full", !.refresh = "full", !.until = "time"]
             [] b = "jwt" -> [Plain EXCEPT !.call = "validatejwt", !.schema = "holds"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars
V2 == c.model = "v2"

\* the contents could not be read at all
Unreadable == \/ c.type \in {"absent", "number"} \/ c.issuer \in {"number", "nameless"}
              \/ c.subject \in {"number", "idnumber"} \/ c.from \in {"dateonly", "word", "number"} \/ c.until \in {"dateonly", "word", "number"}
              \/ c.context = "absent" \/ c.id = "number" \/ c.status = "text" \/ c.proof = "text"
\* the rules of the data model, member by member
IdOk == c.id # "number"
ContextOk == CASE c.context = "list" -> TRUE [] c.context = "string" -> ~V2 [] OTHER -> FALSE
TypeOk == c.type \in {"two", "one", "onelist"}
IssuerOk == CASE c.issuer \in {"text", "object"} -> TRUE [] OTHER -> FALSE
SubjectOk == CASE c.subject \in {"one", "two", "onelist"} -> TRUE
               [] c.subject \in {"text"} -> ~V2
               [] OTHER -> FALSE
FromOk == CASE c.from \in {"time", "offset"} -> TRUE [] c.from = "absent" -> V2 [] OTHER -> FALSE
UntilOk == c.until \in {"absent", "time"}
StatusOk == CASE c.status \in {"absent", "one"} -> TRUE [] c.status = "list" -> V2 [] OTHER -> FALSE
\* a schema reference names the schema and its type
SchemaShape == c.schema \notin {"noid", "notype"}
EvidenceOk == CASE c.evidence \in {"absent", "full", "list"} -> TRUE [] c.evidence = "typeonly" -> V2 [] OTHER -> FALSE
TermsOk == CASE c.terms \in {"absent", "full", "noid", "list"} -> TRUE [] OTHER -> FALSE
RefreshOk == c.refresh \in {"absent", "full"}
ProofOk == c.proof \in {"absent", "good", "list"}
\* rules this library's schema does not have: either answer
Loose == \/ c.id = "relative" \/ c.issuer = "plainword" \/ c.context \in {"twice", "otherfirst"} \/ c.until = "null" \/ c.status = "null"
         \/ (~V2 /\ c.subject \in {"emptyobject", "emptylist", "listwithempty"}) \/ (~V2 /\ c.terms = "notype")
Firm == /\ c.id # "number" /\ (ContextOk \/ c.context \in {"twice", "otherfirst"}) /\ TypeOk /\ (IssuerOk \/ c.issuer = "plainword")
        /\ (SubjectOk \/ (~V2 /\ c.subject \in {"emptyobject", "emptylist", "listwithempty"})) /\ FromOk /\ (UntilOk \/ c.until = "null")
        /\ (StatusOk \/ c.status = "null") /\ SchemaShape /\ EvidenceOk /\ (TermsOk \/ (~V2 /\ c.terms = "notype")) /\ RefreshOk /\ ProofOk

\* the schemas it refers to, of the types this library knows: each must be there and hold
Needs == CASE c.schema \in {"holds", "json18holds", "both", "looserholds"} -> "ok"
           [] c.schema \in {"fails", "firstfails", "secondfails", "unknownthenfails", "failsthenunknown", "json18fails", "loosefails", "missing", "missingsecond", "notjson"} -> "fail"
           [] OTHER -> "none"
Checked == c.option \in {"plain", "base", "extended", "extendedtight"}
\* which rules are applied is the caller's choice
Verdict ==
  CASE c.call = "jwt" -> IF Unreadable THEN "either" ELSE "ok"
    [] c.option = "disabled" /\ c.call \notin {"validatejwt", "validatecwt", "validatejson", "created"} -> IF Unreadable THEN "either" ELSE "ok"
    [] c.option \in {"own", "ownloader", "ldonly"} -> IF c.extra = "absent" /\ c.option # "ldonly" THEN "reject" ELSE IF Firm /\ ~Loose /\ c.extra = "text" THEN "ok" ELSE "either"
    [] ~Firm -> "reject"
    [] Checked /\ Needs = "fail" -> "reject"
    \* types that are not allowed; contexts given inline are not counted
    [] c.option = "base" -> IF c.type = "two" \/ c.context = "otherfirst" THEN "reject" ELSE IF Loose \/ c.context # "string" THEN "either" ELSE "ok"
    [] c.option = "extendedtight" -> IF c.type = "two" THEN "reject" ELSE IF Loose THEN "either" ELSE "ok"
    [] Loose -> "either"
    [] OTHER -> "ok"
Sensible == /\ c.call \in {"jwt", "validatejwt"} => c.proof = "absent"
            /\ c.call \in {"cwt", "envelopedcwt", "validatecwt", "created", "unsecured"} => c.proof = "absent"
            /\ c.call \in {"validatejwt", "validatecwt", "validatejson"} => ~Unreadable /\ c.option # "disabled"
            /\ c.call = "created" => ~Unreadable /\ c.option # "disabled" /\ c.subject \notin {"text", "emptylist", "emptyobject", "listwithempty", "absent"} /\ c.issuer # "absent" /\ c.schema \notin {"noid", "notype"}
                                     /\ c.status # "null" /\ c.until # "null" /\ c.context # "string"
            /\ c.call = "object" => TRUE
            /\ c.proof \in {"notype", "list", "text"} => c.call \in {"json", "object"}
Enforced == (Done /\ Sensible /\ Verdict = "ok" /\ c.option = "plain" /\ c.call # "jwt") => Firm /\ Needs # "fail"
BaseOk == (Done /\ dev = <<>>) => Verdict = "ok" /\ Sensible
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> Verdict, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
