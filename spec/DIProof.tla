------------------------------ MODULE DIProof -------------------------------
(* Which documents with Data Integrity proofs count as proven.  alice         *)
(* publishes, under one key: "own" (assertion), "auth", "inv" and "del" (only  *)
(* in their relationship), "agreement" (key agreement only) and "general" (in  *)
(* no relationship); under other keys "second" and "cross" (a key of the other *)
(* suite family).  Her document also lists two methods of carol under the      *)
(* second key: carol's "twin" (before alice's own "twin") and carol's "ghost". *)
(* mallory publishes one method for assertion.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Purposes == {"assertionMethod", "authentication", "capabilityInvocation", "capabilityDelegation", "keyAgreement", "custom"}
Order0 == <<"entry", "ctx", "via", "vm", "kid", "signer", "purpose", "want", "dom", "chal", "times", "state", "set", "doc", "opt">>
Dom0(d) ==
  CASE d = "entry" -> {"verify", "parse", "recheck"}
    [] d = "ctx" -> {"v2", "v1di", "v1"}
    [] d = "via" -> {"given", "givenonly", "resolver"}
    [] d = "vm" -> {"jwk", "multikey", "raw", "foreign", "otherkey"}
    [] d = "kid" -> {"own", "second", "mallory", "auth", "inv", "del", "agreement", "general", "twin", "ghost", "unknown", "bare", "upper", "fragment"}
    [] d = "signer" -> {"own", "second", "mallory"}
    [] d = "purpose" -> Purposes
    [] d = "want" -> {"same", "other", "default"}
    [] d \in {"dom", "chal"} -> {"same", "unstated", "missing", "different", "none"}
    [] d = "times" -> {"plain", "expires", "expired", "nocreated", "offset"}
    [] d = "state" -> {"none", "suite", "othersuite", "aliassuite", "vmid", "othervmid", "vm", "othervm", "created", "othercreated"}
    [] d = "set" -> {"one", "two", "mixed", "three", "twomallory", "firstbad", "secondbad", "thirdbad", "borrowed", "twosame", "samebad", "repeated", "expired2", "purpose2",
                     "nodomain2", "suite2", "type2", "type1", "empty", "null", "absent", "string", "listofstring", "nested"}
    [] d = "doc" -> {"none", "reorder", "setorder", "undefined", "subundefined",
                     "id", "noid", "issued", "expires", "noexpires", "subject", "nosubject", "claim", "claimtype", "noclaim", "addclaim",
                     "nested", "addnested", "listorder", "listdrop", "setdrop", "types", "notype", "status", "context", "lang"}
    [] d = "opt" -> {"none", "undefined", "created", "nocreated", "fraction", "expires", "past", "noexpires", "purpose", "nopurpose",
                     "domain", "nodomain", "challenge", "nochallenge", "vm", "novm", "alias", "suite", "nosuite", "type", "notype", "id", "previous",
                     "bit", "short", "long", "dertail", "other", "empty", "nosig"}
Plain == [entry |-> "verify", ctx |-> "v2", via |-> "given", vm |-> "jwk", kid |-> "own", signer |-> "own", purpose |-> "assertionMethod",
          want |-> "same", dom |-> "same", chal |-> "same", times |-> "plain", state |-> "none", set |-> "one", doc |-> "none", opt |-> "none"]
Base(b) == CASE b \in {"ecdsa-2019/384", "eddsa-2022"} -> [Plain EXCEPT !.dom = "none", !.chal = "unstated"]
             [] b = "ecdsa-rdfc-2019/384" -> [Plain EXCEPT !.dom = "unstated", !.chal = "none"]
             [] OTHER -> Plain
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Family == IF base \in {"eddsa-rdfc-2022", "eddsa-2022"} THEN "ed" ELSE "ec"
Usable == c.vm \in {"jwk", "multikey"} \/ (c.vm = "raw" /\ Family = "ed")
Parses == c.entry # "verify"
\* relationships: a method in no particular one may serve for assertion
Serves(k, p) == CASE p = "assertionMethod" -> k \in {"own", "second", "general", "twin", "mallory"}
                  [] p = "authentication" -> k = "auth"
                  [] p = "capabilityInvocation" -> k = "inv"
                  [] p = "capabilityDelegation" -> k = "del"
                  [] OTHER -> FALSE
KeyOf(k) == CASE k \in {"own", "auth", "inv", "del", "general", "twin"} -> "own" [] k \in {"second", "mallory"} -> k [] OTHER -> "none"
\* the purpose the verifier expects
Want == CASE c.want = "same" -> c.purpose
          [] c.want = "other" -> (IF c.purpose = "assertionMethod" THEN "authentication" ELSE "assertionMethod")
          [] OTHER -> (IF Parses THEN "assertionMethod" ELSE "none")
HasDomain == c.dom \in {"same", "unstated", "different"}
HasChallenge == c.chal \in {"same", "unstated", "different"}
FieldOk(v) == v \in {"same", "unstated", "none"}
\* further statements of the verifier about the proof
StateOk == CASE c.state \in {"othersuite", "aliassuite", "othercreated"} -> FALSE
             [] c.state \in {"othervmid", "othervm"} -> c.kid = "general"
             [] c.state = "vmid" -> c.kid = "own"
             [] c.state = "vm" -> c.kid = "own"
             [] c.state = "created" -> c.times # "nocreated"
             [] OTHER -> TRUE
Signed1 == /\ KeyOf(c.kid) = c.signer /\ Serves(c.kid, c.purpose) /\ Usable
\* further proofs of a set are for assertion, and are made after the first by the named method
MoreOk == Want = "assertionMethod" /\ c.state \notin {"vmid", "vm", "othervmid", "othervm"}
SetOk == CASE c.set \in {"one", "repeated"} -> TRUE
           [] c.set \in {"two", "twosame"} -> MoreOk
           [] c.set \in {"mixed", "three"} -> MoreOk /\ c.state # "suite"
           [] c.set = "twomallory" -> MoreOk /\ ~Parses
           [] c.set = "nodomain2" -> MoreOk /\ c.dom # "same"
           [] OTHER -> FALSE
SameMeaning == c.doc \in {"none", "reorder", "setorder", "undefined", "subundefined"}
SameOptions == \/ c.opt \in {"none", "undefined"}
               \/ c.opt = "nocreated" /\ c.times = "nocreated"
               \/ c.opt = "noexpires" /\ c.times \notin {"expires", "expired", "offset"}
               \/ c.opt = "nodomain" /\ ~HasDomain
               \/ c.opt = "nochallenge" /\ ~HasChallenge
IssuerOk == Parses => c.kid # "mallory"
Proven == /\ Signed1 /\ Want = c.purpose /\ FieldOk(c.dom) /\ FieldOk(c.chal) /\ c.times # "expired" /\ StateOk /\ SetOk
          /\ SameMeaning /\ SameOptions /\ IssuerOk

\* a proof that is accepted was made by the key its method names; a credential is proven by its issuer only
KeyMatches == (Done /\ Proven) => KeyOf(c.kid) = c.signer
OnlyIssuer == (Done /\ Proven /\ Parses) => c.signer \in {"own", "second"} /\ c.set # "twomallory"
AtLeastOneProof == (Done /\ Proven) => c.set \in {"one", "repeated", "two", "twosame", "mixed", "three", "twomallory", "nodomain2"}
BaseOk == (Done /\ dev = <<>>) => Proven
\* the statements of "state" have no counterpart when parsing; a method handed over by the verifier is not looked up in a relationship
Sensible == /\ c.state # "none" => ~Parses
            /\ c.state \in {"vm", "othervm"} => c.purpose = "assertionMethod" /\ c.vm = "jwk"
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> (IF Proven THEN "ok" ELSE "reject"), base |-> base, dev |-> dev, c |-> c]))
=============================================================================
