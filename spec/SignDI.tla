------------------------------- MODULE SignDI -------------------------------
(* Signing credentials and presentations with Data Integrity proofs.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"what", "suite", "init", "kind", "vm", "kid", "purpose", "published", "key", "sig", "ask", "entry">>
Dom0(d) ==
  CASE d = "what" -> {"vc", "vp"}
    [] d = "suite" -> {"ecdsa-2019", "ecdsa-rdfc-2019", "eddsa-2022", "eddsa-rdfc-2022", "bogus", "none"}
    [] d = "init" -> {"both", "only", "other", "empty"}
    [] d = "kind" -> {"ed", "p256", "p384", "p521", "k256", "rsa"}
    [] d = "vm" -> {"jwk", "multikey", "raw"}
    [] d = "kid" -> {"own", "unknown", "nodid", "absent"}
    [] d = "purpose" -> {"assertionMethod", "authentication", "keyAgreement", "bogus", "default"}
    [] d = "published" -> {"right", "general", "else", "republished"}
    [] d = "key" -> {"right", "same", "other"}
    [] d = "sig" -> {"raw", "der", "fails"}
    [] d = "ask" -> {"plain", "domain", "domchal"}
    [] d = "entry" -> {"parse", "check"}
Plain == [what |-> "vc", suite |-> "ecdsa-2019", init |-> "both", kind |-> "p256", vm |-> "jwk", kid |-> "own", purpose |-> "assertionMethod", published |-> "right",
          key |-> "right", sig |-> "raw", ask |-> "plain", entry |-> "parse"]
Base(b) == CASE b = "p256" -> Plain
             [] b = "p384" -> [Plain EXCEPT !.suite = "ecdsa-rdfc-2019", !.kind = "p384", !.vm = "multikey"]
             [] b = "ed" -> [Plain EXCEPT !.suite = "eddsa-2022", !.kind = "ed"]
             [] b = "edmulti" -> [Plain EXCEPT !.suite = "eddsa-rdfc-2022", !.kind = "ed", !.vm = "multikey", !.entry = "check"]
             [] b = "vp" -> [Plain EXCEPT !.what = "vp", !.purpose = "authentication", !.ask = "domchal"]
             [] b = "vped" -> [Plain EXCEPT !.what = "vp", !.suite = "eddsa-rdfc-2022", !.kind = "ed", !.vm = "raw"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Sensible == /\ c.sig = "der" => c.kind \in {"p256", "p384"}
            /\ c.vm = "multikey" => c.kind \in {"ed", "p256", "p384"}
            /\ c.entry = "check" => c.what = "vc"
            /\ c.purpose \in {"keyAgreement", "bogus"} => c.published = "right"
            \* a signer that knows no suite of that name has none for another
            /\ c.suite \in {"bogus", "none"} => c.init \in {"both", "empty"}

Ecdsa == c.suite \in {"ecdsa-2019", "ecdsa-rdfc-2019"}
Eddsa == c.suite \in {"eddsa-2022", "eddsa-rdfc-2022"}
Known == (Ecdsa \/ Eddsa) /\ c.init \in {"both", "only"}
\* methods of no particular relationship may make assertions
Purposed == CASE c.purpose \in {"assertionMethod", "default"} -> c.published \in {"right", "general", "republished"}
              [] c.purpose = "authentication" -> c.published \in {"right", "republished"}
              [] OTHER -> FALSE
Fits == \/ Ecdsa /\ c.kind \in {"p256", "p384"} /\ c.vm \in {"jwk", "multikey"}
        \/ Eddsa /\ c.kind = "ed"
Made == Known /\ c.kid = "own" /\ Purposed /\ Fits /\ c.sig # "fails"
\* republished: the method holds another key by the time of checking
Verdict == CASE ~Made -> "refuse"
             [] c.key = "right" /\ c.published # "republished" -> "verifies"
             [] OTHER -> "fails"
NeverForged == (Done /\ Verdict = "verifies") => c.key = "right" /\ Fits
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> Verdict, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
