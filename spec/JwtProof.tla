------------------------------ MODULE JwtProof ------------------------------
(* Which signed compact tokens count as proven.  alice and mallory publish   *)
(* documents; alice's has, for one key type kt, methods "own", "second" and   *)
(* "inside" (embedded) and two key-agreement methods; mallory's has one method.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K
VARIABLES c, last, dev, base, pc

Order0 == <<"entry", "kt", "alg", "vm", "kid", "signer", "typ", "cty", "iss", "tamper">>
Dom0(d) ==
  CASE d = "entry" -> {"issuer", "noissuer", "check", "checknil", "proof", "embedded"}
    [] d = "kt" -> {"Ed", "P256", "P384", "P521", "K256", "RSA"}
    [] d = "alg" -> {"EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256", "none", "absent", "HS256", "eddsa", "number"}
    [] d = "vm" -> {"jwk", "native", "nativejwk", "jwkbytes", "foreign"}
    [] d = "kid" -> {"own", "second", "inside", "agreement", "embedded", "mallory", "unknown", "upper", "fragment", "longer", "bare", "absent", "number"}
    [] d = "signer" -> {"own", "second", "mallory", "nobody"}
    [] d = "typ" -> {"absent", "JWT", "jwt", "vc+jwt", "vc+JWT", "vc+sd-jwt", "JOSE", "vc+cwt", "number"}
    [] d = "cty" -> {"absent", "JWT", "vc"}
    [] d = "iss" -> {"alice", "mallory", "nobody", "aliceurl", "empty", "absent", "alicelast", "alicefirst"}
    [] d = "tamper" -> {"none", "payload", "header", "bit", "short", "long", "nosig", "swap", "badb64", "twoparts", "der", "dertail"}
Plain == [entry |-> "issuer", kt |-> "Ed", alg |-> "EdDSA", vm |-> "jwk", kid |-> "own", signer |-> "own", typ |-> "JWT", cty |-> "absent",
          iss |-> "alice", tamper |-> "none"]
Base(b) == CASE b = "ed" -> Plain
             [] b = "p256" -> [Plain EXCEPT !.kt = "P256", !.alg = "ES256", !.entry = "check", !.typ = "absent"]
             [] b = "k256" -> [Plain EXCEPT !.kt = "K256", !.alg = "ES256K", !.entry = "proof", !.vm = "native"]
             [] b = "rsa" -> [Plain EXCEPT !.kt = "RSA", !.alg = "PS256", !.entry = "noissuer", !.iss = "absent", !.typ = "vc+jwt"]
             [] b = "p521" -> [Plain EXCEPT !.kt = "P521", !.alg = "ES521", !.entry = "checknil", !.cty = "vc", !.vm = "nativejwk"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- {"ed", "p256", "k256", "rsa", "p521"}, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Matches(alg, kt) == <<alg, kt>> \in {<<"EdDSA", "Ed">>, <<"ES256", "P256">>, <<"ES384", "P384">>, <<"ES521", "P521">>,
                                     <<"ES256K", "K256">>, <<"RS256", "RSA">>, <<"PS256", "RSA">>}
\* key material that can be used with the key type: "native" is the key type's own method type where there is one, and the JWK method
\* type (which needs a JWK) otherwise
Usable(vm, kt) == CASE vm \in {"jwk", "nativejwk"} -> TRUE
                    [] vm = "native" -> kt \in {"Ed", "K256", "RSA"}
                    [] OTHER -> FALSE
Bound == c.entry \in {"issuer", "check", "proof"}
\* DID whose document is consulted
\* stated twice: what a reader of the accepted claims sees is the last one
Twice == c.iss \in {"alicelast", "alicefirst"}
Issuer == IF Bound THEN (CASE c.iss = "alicelast" -> "alice" [] c.iss = "alicefirst" -> "mallory" [] OTHER -> c.iss)
          ELSE CASE c.kid \in {"own", "second", "inside", "agreement", "embedded", "unknown", "longer", "bare"} -> "alice"
                 [] c.kid = "mallory" -> "mallory" [] OTHER -> "nobody"
\* owner of the key that the key identifier names within that document
Named == CASE c.entry = "embedded" -> "own"
           [] Issuer = "alice" /\ c.kid \in {"own", "second", "inside"} -> (IF c.kid = "inside" THEN "own" ELSE c.kid)
           [] Issuer = "mallory" /\ c.kid = "mallory" -> "mallory"
           [] OTHER -> "none"
HeadersOk == c.entry \notin {"issuer", "noissuer"}
             \/ (c.typ \in {"absent", "JWT", "vc+jwt", "vc+JWT", "vc+sd-jwt"} /\ c.cty # "JWT")
Proven == /\ Matches(c.alg, c.kt) /\ Usable(c.vm, c.kt)
          /\ Named # "none" /\ c.signer = Named
          /\ c.tamper \in {"none", "der"}
          /\ HeadersOk

AuthenticIssuer == (Done /\ Proven /\ Bound /\ Issuer = "alice") => c.signer \in {"own", "second"}
NoUnsigned == (Done /\ Proven) => c.alg # "none" /\ c.signer # "nobody"
\* "der" writes the two integers of an ECDSA signature in the other known encoding: not told apart here, but nothing may follow them
BaseOk == (Done /\ dev = <<>>) => Proven
Emit == Done => PrintT("@@" \o ToJson([expect |-> (CASE ~Proven -> "reject" [] Twice \/ c.tamper = "der" -> "either" [] OTHER -> "ok"), base |-> base, dev |-> dev, c |-> c]))
=============================================================================
