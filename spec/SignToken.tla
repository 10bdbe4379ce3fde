----------------------------- MODULE SignToken ------------------------------
(* Signing credentials and presentations as tokens (JWT, SD-JWT, CWT): which  *)
(* requests are refused, and which results verify with which method.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"what", "format", "alg", "by", "reg", "key", "sig", "vm", "vmkey", "entry", "min">>
Algs == {"EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256"}
Dom0(d) ==
  CASE d = "what" -> {"vc", "vp"}
    [] d = "format" -> {"jwt", "sd", "cwt"}
    [] d = "alg" -> Algs \cup {"bogus", "zero", "eddsa", "rs256"}   \* names are exact
    [] d = "by" -> {"name", "keytype", "dertype"}
    [] d = "reg" -> {"all", "only", "without", "none"}
    [] d = "key" -> {"right", "crossed"}
    [] d = "sig" -> {"raw", "der", "fails"}
    [] d = "vm" -> {"jwk", "native", "nativejwk", "jwkbytes", "foreign"}
    [] d = "vmkey" -> {"own", "same", "other"}
    [] d = "entry" -> {"parse", "check", "embedded"}
    [] d = "min" -> {"no", "yes"}
Plain == [what |-> "vc", format |-> "jwt", alg |-> "EdDSA", by |-> "name", reg |-> "all", key |-> "right", sig |-> "raw", vm |-> "jwk", vmkey |-> "own",
          entry |-> "parse", min |-> "no"]
Base(b) == CASE b = "jwt" -> Plain
             [] b = "sd" -> [Plain EXCEPT !.format = "sd", !.alg = "ES256"]
             [] b = "cwt" -> [Plain EXCEPT !.format = "cwt", !.alg = "ES384"]
             [] b = "jwtvp" -> [Plain EXCEPT !.what = "vp", !.alg = "PS256", !.vm = "native"]
             [] b = "cwtvp" -> [Plain EXCEPT !.what = "vp", !.format = "cwt"]
             [] b = "keytype" -> [Plain EXCEPT !.by = "keytype", !.alg = "ES256K"]
             [] b = "p521" -> [Plain EXCEPT !.alg = "ES521", !.sig = "der"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Ec == {"ES256", "ES384", "ES521", "ES256K"}
Sensible == /\ c.format = "sd" => c.what = "vc"
            /\ c.sig = "der" => c.alg \in Ec
            /\ c.by = "dertype" => c.alg \in Ec
            /\ c.alg = "zero" => c.by = "name" /\ c.format # "sd"
            /\ c.alg \in {"eddsa", "rs256"} => c.format = "sd"
            /\ c.alg \notin Algs => c.vm = "jwk" /\ c.vmkey = "own" /\ c.reg # "only" /\ c.key = "right"
            \* the algorithm of an SD-JWT is the signer's own matter
            /\ c.format = "sd" => c.by = "name"
            /\ c.entry = "embedded" => c.format = "jwt" /\ c.what = "vc"
            /\ c.entry = "check" => c.what = "vc"
            /\ c.min = "yes" => c.format # "sd"
            /\ c.vm = "nativejwk" => c.alg \in {"EdDSA", "ES256K", "RS256", "PS256"}

\* algorithms a format has
Offered == CASE c.format = "cwt" -> Algs \ {"ES521", "ES256K"}
             [] OTHER -> Algs
Registered == c.reg \in {"all", "only"}
\* algorithm numbers: the library's zero is an algorithm of its own, RS256, for JSON tokens
Asked == IF c.alg = "zero" /\ c.format = "jwt" THEN "RS256" ELSE c.alg
Made == Asked \in Offered /\ (Registered \/ (c.alg = "zero" /\ c.reg = "without")) /\ c.sig # "fails"
Method == CASE c.vm = "jwk" -> TRUE
            [] c.vm \in {"native", "nativejwk"} -> Asked \in {"EdDSA", "ES256K", "RS256", "PS256"}
            [] OTHER -> FALSE
Verdict == CASE ~Made -> "refuse"
             [] c.key = "right" /\ c.vmkey = "own" /\ Method -> "verifies"
             [] OTHER -> "fails"
NeverForged == (Done /\ Verdict = "verifies") => c.key = "right" /\ c.vmkey = "own" /\ c.sig # "fails"
RefusedIsNotMade == (Done /\ Verdict # "refuse") => Asked \in Offered
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> Verdict, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
