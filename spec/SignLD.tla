------------------------------- MODULE SignLD -------------------------------
(* Signing credentials and presentations with linked-data proofs.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"what", "suite", "kt", "rep", "reg", "algs", "key", "sig", "vm", "vmkey", "entry">>
Ed == {"ed"}
K256 == {"k256", "k256der"}
P == {"p256", "p256der", "p384", "p384der", "p521", "p521der"}
Dom0(d) ==
  CASE d = "what" -> {"vc", "vp"}
    [] d = "suite" -> {"ed18", "ed20", "k256", "jws", "bbs", "bogus", "none"}
    [] d = "kt" -> Ed \cup K256 \cup P \cup {"ps256", "rs256", "bbs", "x25519", "none"}
    [] d = "rep" -> {"jws", "value"}
    [] d = "reg" -> {"all", "only", "without"}
    [] d = "algs" -> {"all", "only", "without"}
    [] d = "key" -> {"right", "crossed"}
    [] d = "sig" -> {"raw", "der", "fails"}
    [] d = "vm" -> {"jwk", "native", "nativejwk", "ed2020", "ed2020multi", "jwkbytes", "foreign"}
    [] d = "vmkey" -> {"own", "same", "other"}
    [] d = "entry" -> {"parse", "check", "derived"}
Plain == [what |-> "vc", suite |-> "ed18", kt |-> "ed", rep |-> "jws", reg |-> "all", algs |-> "all", key |-> "right", sig |-> "raw", vm |-> "jwk", vmkey |-> "own",
          entry |-> "parse"]
Base(b) == CASE b = "ed18" -> Plain
             [] b = "ed20" -> [Plain EXCEPT !.suite = "ed20", !.rep = "value", !.vm = "ed2020"]
             [] b = "k256" -> [Plain EXCEPT !.suite = "k256", !.kt = "k256", !.vm = "native"]
             [] b = "jws" -> [Plain EXCEPT !.suite = "jws", !.kt = "p256"]
             [] b = "p384der" -> [Plain EXCEPT !.suite = "jws", !.kt = "p384der", !.sig = "der"]
             [] b = "bbs" -> [Plain EXCEPT !.suite = "bbs", !.kt = "bbs", !.rep = "value", !.vm = "native"]
             [] b = "vp" -> [Plain EXCEPT !.what = "vp", !.suite = "jws", !.kt = "p521", !.rep = "value"]
             [] b = "derived" -> [Plain EXCEPT !.suite = "bbs", !.kt = "bbs", !.rep = "value", !.vm = "native", !.entry = "derived"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Sensible == /\ c.sig = "der" => c.kt \in K256 \cup P
            /\ c.vm \in {"ed2020", "ed2020multi"} => c.kt = "ed"
            /\ c.vm = "nativejwk" => c.kt \in {"ed", "k256", "k256der"}
            /\ c.suite \in {"bogus", "none"} => c.reg # "only"
            /\ c.kt \in {"x25519", "none"} => c.vm = "jwk" /\ c.vmkey = "own" /\ c.key = "right"
            \* no JWK form of these keys here
            /\ c.kt = "bbs" => c.vm \in {"native", "jwkbytes", "foreign"}
            /\ c.entry = "derived" => c.suite = "bbs" /\ c.what = "vc"
            /\ c.entry = "check" => c.what = "vc"

Fit == CASE c.suite \in {"ed18", "ed20"} -> Ed
         [] c.suite = "k256" -> K256
         [] c.suite = "jws" -> Ed \cup K256 \cup P \cup {"ps256"}
         [] c.suite = "bbs" -> {"bbs"}
         [] OTHER -> {}
\* a detached JWS names an algorithm, which must be known for the key; the options of Ed25519Signature2020 cannot be
\* expressed next to one
Named == c.rep = "value" \/ (c.kt # "bbs" /\ c.algs # "without" /\ c.suite # "ed20")
Made == c.reg # "without" /\ c.kt \in Fit /\ Named /\ c.sig # "fails"
Method == CASE c.vm = "jwk" -> TRUE
            [] c.vm \in {"native", "nativejwk"} -> c.suite \in {"ed18", "ed20", "k256", "bbs"}
            [] c.vm \in {"ed2020", "ed2020multi"} -> c.suite = "ed20"
            [] OTHER -> FALSE
Verdict == CASE ~Made -> "refuse"
             \* nothing can be derived from what does not verify
             [] c.key = "right" /\ c.vmkey = "own" /\ Method -> "verifies"
             \* a key declared as of another type: suite and method decide, whatever algorithm the header of a detached JWS names
             [] c.key = "crossed" /\ c.vmkey = "other" /\ c.vm = "jwk" /\ c.suite = "jws" /\ c.kt # "ps256" -> "verifies"
             [] OTHER -> "fails"
NeverForged == (Done /\ Verdict = "verifies") => c.kt \in Fit /\ (<<c.key, c.vmkey>> = <<"right", "own">> \/ <<c.key, c.vmkey>> = <<"crossed", "other">>)
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> Verdict, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
