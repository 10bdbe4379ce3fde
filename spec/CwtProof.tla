------------------------------ MODULE CwtProof ------------------------------
(* Which CBOR web tokens count as proven.  alice publishes methods "own",    *)
(* "second", "inside" (embedded) and two key-agreement methods of one key    *)
(* type; mallory publishes one method.  Tokens may also carry a key (ck).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"entry", "kt", "alg", "algat", "vm", "kid", "kidat", "ck", "signer", "iss", "form", "tamper">>
Dom0(d) ==
  CASE d = "entry" -> {"parse", "recheck", "proof", "proofnil", "token", "tokennil"}
    [] d = "kt" -> {"Ed", "P256", "P384", "P521", "K256", "RSA"}
    [] d = "alg" -> {"EdDSA", "ES256", "ES384", "ES512", "ES256K", "RS256", "PS256", "PS384", "zero", "unheard", "text", "absent"}
    [] d = "algat" -> {"protected", "unprotected", "both"}
    [] d = "vm" -> {"jwk", "native", "nativejwk", "jwkbytes", "foreign"}
    [] d = "kid" -> {"own", "second", "inside", "agreement", "embedded", "mallory", "unknown", "upper", "fragment", "longer", "bare", "absent", "empty", "text"}
    [] d = "kidat" -> {"protected", "unprotected"}
    [] d = "ck" -> {"none", "own", "mallory", "badhex", "badkey", "bytes"}
    [] d = "signer" -> {"own", "second", "mallory", "nobody"}
    [] d = "iss" -> {"alice", "mallory", "nobody", "empty", "absent", "number"}
    [] d = "form" -> {"plain", "hex", "quoted", "untagged", "trailing", "short", "sign", "longheader", "extra"}
    [] d = "tamper" -> {"none", "payload", "header", "unprotected", "bit", "shortsig", "longsig", "dertail", "nosig", "nullsig", "swap", "detached", "aad", "context"}
Plain == [entry |-> "parse", kt |-> "Ed", alg |-> "EdDSA", algat |-> "protected", vm |-> "jwk", kid |-> "own", kidat |-> "protected", ck |-> "none",
          signer |-> "own", iss |-> "alice", form |-> "plain", tamper |-> "none"]
Base(b) == CASE b = "ed" -> Plain
             [] b = "p256" -> [Plain EXCEPT !.kt = "P256", !.alg = "ES256", !.entry = "token", !.ck = "mallory"]
             [] b = "p384" -> [Plain EXCEPT !.kt = "P384", !.alg = "ES384", !.entry = "proof", !.vm = "nativejwk"]
             [] b = "rsa" -> [Plain EXCEPT !.kt = "RSA", !.alg = "PS256", !.entry = "proofnil", !.vm = "native"]
             [] b = "rs256" -> [Plain EXCEPT !.kt = "RSA", !.alg = "RS256", !.form = "hex"]
             [] b = "key" -> [Plain EXCEPT !.entry = "tokennil", !.kid = "absent", !.ck = "own", !.iss = "absent"]
             [] b = "keyP" -> [Plain EXCEPT !.kt = "P384", !.alg = "ES384", !.entry = "proofnil", !.kid = "absent", !.ck = "own", !.iss = "absent"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Matches(alg, kt) == <<alg, kt>> \in {<<"EdDSA", "Ed">>, <<"ES256", "P256">>, <<"ES384", "P384">>, <<"RS256", "RSA">>, <<"PS256", "RSA">>}
Usable(vm, kt) == CASE vm \in {"jwk", "nativejwk"} -> TRUE
                    [] vm = "native" -> kt \in {"Ed", "K256", "RSA"}
                    [] OTHER -> FALSE
ByParse == c.entry \in {"parse", "recheck"}
ByToken == c.entry \in {"token", "tokennil"}
Bound == c.entry \notin {"proofnil", "tokennil"}
\* the key identifier that counts: in the protected header
Kid == IF c.kidat = "protected" /\ c.kid # "empty" THEN c.kid ELSE "absent"
Issuer == IF Bound THEN c.iss
          ELSE CASE Kid \in {"own", "second", "inside", "agreement", "embedded", "unknown", "longer", "bare"} -> "alice"
                 [] Kid = "mallory" -> "mallory" [] OTHER -> "nobody"
\* owner of the key that the header names
ByCk == Kid = "absent" /\ ~Bound /\ c.ck \in {"own", "mallory"}
Named == CASE ByCk -> c.ck
           [] Issuer = "alice" /\ Kid \in {"own", "second", "inside"} -> (IF Kid = "inside" THEN "own" ELSE Kid)
           [] Issuer = "mallory" /\ Kid = "mallory" -> "mallory"
           [] OTHER -> "none"
FormOk == CASE c.form \in {"plain", "longheader", "extra"} -> TRUE
            [] c.form \in {"hex", "quoted"} -> ByParse
            [] OTHER -> FALSE
HeaderOk == /\ ByToken => c.ck \in {"own", "mallory", "badhex", "badkey"}
            /\ c.algat # "unprotected"
            /\ c.kid # "text"
TamperOk == c.tamper \in {"none", "unprotected"}
Proven == /\ Matches(c.alg, c.kt) /\ (ByCk \/ Usable(c.vm, c.kt))
          /\ Named # "none" /\ c.signer = Named
          /\ FormOk /\ HeaderOk /\ TamperOk

AuthenticIssuer == (Done /\ Proven /\ Bound /\ c.iss = "alice") => c.signer \in {"own", "second"}
NoUnsigned == (Done /\ Proven) => c.alg # "zero" /\ c.signer # "nobody"
BaseOk == (Done /\ dev = <<>>) => Proven
\* no COSE keys for RSA and secp256k1; a credential's issuer is a string or object
Sensible == /\ c.ck \in {"own", "mallory"} => c.kt \in {"Ed", "P256", "P384", "P521"}
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> (IF Proven THEN "ok" ELSE "reject"), base |-> base, dev |-> dev, c |-> c]))
=============================================================================
