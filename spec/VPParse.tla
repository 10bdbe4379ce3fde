------------------------------ MODULE VPParse -------------------------------
(* Which presentations parsing accepts.  hanna is the honest holder, mallory  *)
(* another one; "forged" is mallory's key under hanna's key identifier.       *)
(* Items are the credentials inside; "foreign" is a valid credential of       *)
(* another issuer.                                                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"alg", "model", "wrap", "signer", "holder", "iss", "shape", "i1", "f1", "i2", "f2", "i3", "f3", "tamper", "want", "set", "checks", "hcheck", "strict", "extra">>
Kinds == {"jwt", "sd", "cwt", "ldtext", "ld", "di", "env", "envsd", "envcwt", "bare", "number"}
Flaws == {"good", "foreign", "forged", "tampered", "unsigned", "misissued"}
Dom0(d) ==
  CASE d = "alg" -> {"EdDSA", "ES256"}
    [] d = "model" -> {"v1", "v2"}
    [] d = "wrap" -> {"none", "quoted", "envelope", "envelopelist", "raw"}
    [] d = "signer" -> {"hanna", "mallory", "forged", "nobody"}
    [] d = "holder" -> {"hanna", "object", "mallory", "absent", "prefix"}
    [] d = "iss" -> {"same", "absent", "hanna", "mallory", "empty", "prefix"}
    [] d = "shape" -> {"list", "single"}
    [] d = "i1" -> Kinds \cup {"none"}
    [] d \in {"i2", "i3"} -> Kinds \cup {"none"}
    [] d \in {"f1", "f2", "f3"} -> Flaws
    [] d = "tamper" -> {"none", "holder", "signature", "swap", "drop", "replace", "more"}
    [] d = "want" -> {"default", "match", "domain", "challenge", "purpose"}
    [] d = "set" -> {"one", "two", "twobad", "empty"}
    [] d = "checks" -> {"all", "none", "off"}
    [] d \in {"hcheck", "strict"} -> BOOLEAN
    [] d = "extra" -> {"none", "member", "inholder", "inproof"}   \* a member that no context defines
Plain == [enc |-> "jwt", alg |-> "EdDSA", model |-> "v1", wrap |-> "none", signer |-> "hanna", holder |-> "hanna", iss |-> "same", shape |-> "list",
          i1 |-> "jwt", f1 |-> "good", i2 |-> "none", f2 |-> "good", i3 |-> "none", f3 |-> "good", tamper |-> "none", want |-> "default", set |-> "one", checks |-> "all", hcheck |-> FALSE, strict |-> FALSE, extra |-> "none"]
Base(b) == CASE b = "jwt" -> [Plain EXCEPT !.i2 = "sd", !.i3 = "cwt"]
             [] b = "jwt2" -> [Plain EXCEPT !.model = "v2", !.wrap = "envelope", !.i1 = "env", !.i2 = "envsd", !.i3 = "envcwt", !.hcheck = TRUE]
             [] b = "min" -> [Plain EXCEPT !.enc = "min", !.i2 = "ld", !.i3 = "jwt", !.alg = "ES256"]
             [] b = "ld" -> [Plain EXCEPT !.enc = "ld", !.i1 = "ld"]
             [] b = "di" -> [Plain EXCEPT !.enc = "di", !.model = "v2", !.i1 = "env", !.i2 = "di", !.want = "match"]
             [] b = "ldjwt" -> [Plain EXCEPT !.enc = "ldjwt", !.i1 = "ld", !.hcheck = TRUE]
             [] b = "cwt" -> [Plain EXCEPT !.enc = "cwt", !.i1 = "cwt", !.i2 = "jwt"]
             [] b = "cwt2" -> [Plain EXCEPT !.enc = "cwt", !.model = "v2", !.wrap = "envelope", !.i1 = "envcwt", !.i2 = "env", !.hcheck = TRUE]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Embedded == c.enc \in {"ld", "di", "ldjwt"}
Token == c.enc \in {"jwt", "min", "cwt"}
InEnvelope == c.wrap \in {"envelope", "envelopelist"}
Items == SelectSeq(<<[k |-> c.i1, f |-> c.f1], [k |-> c.i2, f |-> c.f2], [k |-> c.i3, f |-> c.f3]>>, LAMBDA x: x.k # "none")
Strings == {"jwt", "sd", "cwt", "ldtext"}
Sensible ==
  /\ c.i1 = "none" => c.f1 = "good" /\ c.i2 = "none"
  /\ c.i2 = "none" => c.f2 = "good" /\ c.i3 = "none"
  /\ c.i3 = "none" => c.f3 = "good"
  /\ c.shape = "single" => Len(Items) = 1
  /\ c.iss # "same" => Token \/ c.enc = "ldjwt"
  /\ c.set # "one" => Embedded
  /\ c.want # "default" => c.enc = "di"
  /\ c.enc = "di" => c.model = "v2"      \* the context needed in 1.1 cannot be combined with nested credentials
  /\ c.wrap = "raw" => c.enc = "cwt"
  /\ c.wrap = "quoted" => ~(Embedded /\ c.enc # "ldjwt")
  /\ InEnvelope => Token
  /\ c.tamper = "swap" => Len(Items) > 1 /\ ~Embedded   \* a linked-data proof covers the credentials as a set
  /\ c.tamper \in {"drop", "replace"} => Len(Items) > 0
  /\ (c.enc = "cwt" => c.signer # "nobody")
  /\ (c.set = "empty" => c.tamper # "signature")
  /\ \A i \in 1..Len(Items) : /\ Items[i].f = "unsigned" => Items[i].k \in {"jwt", "ld", "ldtext", "di", "env"}
                              /\ Items[i].k \in {"bare", "number"} => Items[i].f = "good"
                              /\ (IF c.model = "v2" THEN Items[i].k \notin Strings ELSE Items[i].k \notin {"env", "envsd", "envcwt"})
  /\ (c.enc \in {"ld", "ldjwt", "di"}) => \A i \in 1..Len(Items) : Items[i].k \notin {"bare", "number"} /\ (c.model = "v1" => Items[i].k \in {"ld", "di"} \cup Strings)
  /\ c.extra = "inholder" => c.holder = "object" /\ c.enc # "min"
  /\ c.extra = "inproof" => c.enc = "ld" /\ c.signer # "nobody" /\ c.set = "one"
  /\ c.enc = "cwt" => c.tamper \notin {"holder", "more"}
\* ----- claims merged into the presentation
Stated == IF c.holder = "object" THEN "hanna" ELSE c.holder
Iss == IF c.iss = "same" THEN Stated ELSE IF c.iss = "empty" THEN "absent" ELSE c.iss
Member == IF c.enc = "min" THEN "absent" ELSE Stated
Holder == IF (Token \/ c.enc = "ldjwt") /\ Iss # "absent" THEN Iss ELSE Member
Prover == CASE c.signer = "hanna" -> "hanna" [] c.signer = "mallory" -> "mallory" [] c.signer = "forged" -> "forged" [] OTHER -> "nobody"
WantOk == c.enc # "di" \/ c.want \in {"default", "match"}
Changed == \/ c.tamper \in {"signature", "holder", "more", "replace", "drop", "swap"}
\* the embedded proof covers the holder as merged
Merged == c.enc = "ldjwt" /\ (Holder # Member \/ (Iss # "absent" /\ c.holder = "object"))
ProofOk ==
  /\ c.checks = "all" /\ WantOk /\ Prover \in {"hanna", "mallory"}
  /\ (Embedded => c.set # "empty")
  /\ ~Changed /\ ~Merged
HolderOk == c.hcheck => \/ Holder = "absent"
                        \/ c.signer \in {"hanna", "mallory"} /\ Holder = c.signer /\ c.set # "twobad"
                        \/ c.signer = "forged" /\ Holder = "hanna" /\ c.checks = "off" /\ c.set # "twobad"
                        \/ Embedded /\ (c.signer = "nobody" \/ c.set = "empty") /\ c.checks = "off"
\* a self-asserted credential inside must be the holder's
SelfAsserted == \E i \in 1..Len(Items) : Items[i].k \in {"ld", "di", "ldtext"} /\ Items[i].f = "foreign"
HolderRule == (c.hcheck /\ Embedded /\ c.set # "empty" /\ (c.signer = "mallory" \/ c.set = "twobad") /\ SelfAsserted) => Holder = "mallory"
ItemReadable(i) == i.k # "number" /\ i.k # "bare"
ItemOk(i) == i.f \in {"good", "foreign"}
PlainItem(i) == i.k \in {"ld", "di"}
AllOk == \A i \in 1..Len(Items) : ItemReadable(Items[i]) /\ (c.checks = "off" \/ ItemOk(Items[i]))
OthersOk == \A i \in 1..Len(Items) : ItemReadable(Items[i]) /\ (c.checks = "off" \/ ItemOk(Items[i]) \/ PlainItem(Items[i]))
\* strict validation refuses members whose meaning no context gives; the holder of a token is its issuer
Undefined == c.strict /\ (c.extra \in {"member", "inproof"} \/ (c.extra = "inholder" /\ (Iss = "absent" \/ ~(Token \/ c.enc = "ldjwt"))))
\* the validator (a dependency) may also refuse proof terms that the outermost contexts do not give
Cautious == c.strict /\ (c.alg = "ES256" \/ c.model = "v2" \/ \E i \in 1..Len(Items) : Items[i].k = "di") /\ (Embedded \/ \E i \in 1..Len(Items) : Items[i].k \in {"ld", "di"})
Verdict == IF c.checks = "off" /\ (c.signer = "nobody" \/ c.tamper # "none" \/ c.set = "empty") THEN "any"
           ELSE IF c.checks = "off" /\ (\E i \in 1..Len(Items) : Items[i].f = "unsigned" \/ (Items[i].f = "tampered" /\ Items[i].k \in {"sd", "envsd"})) THEN "any"
           ELSE IF Undefined THEN "reject"
           ELSE IF ~HolderOk \/ ~HolderRule \/ (c.checks # "off" /\ ~ProofOk) THEN "reject"
           ELSE IF AllOk THEN IF Cautious THEN "any" ELSE "ok" ELSE IF OthersOk THEN "rejectplain" ELSE "reject"

HolderProven == (Done /\ Sensible /\ Verdict = "ok" /\ c.hcheck /\ c.checks = "all" /\ Holder # "absent") => c.signer = Holder
CredentialsProven == (Done /\ Sensible /\ Verdict = "ok" /\ c.checks = "all") => \A i \in 1..Len(Items) : Items[i].f \in {"good", "foreign"}
Defined == (Done /\ Sensible /\ Verdict = "ok" /\ c.strict) => ~Undefined
BaseOk == (Done /\ dev = <<>>) => Verdict = "ok"
Emit == (Done /\ Sensible /\ Verdict # "any") => PrintT("@@" \o ToJson([expect |-> Verdict, holder |-> Holder, items |-> Items, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
