---------------------------- MODULE TokenClaims -----------------------------
(* One fact said twice: by a registered claim of the token and by a member   *)
(* of the credential inside. What the accepted credential then states.       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"model", "enc", "issuer", "iss", "id", "jti", "from", "nbf", "iat", "until", "exp", "names", "sub">>
Dom0(d) ==
  CASE d = "model" -> {"v1", "v2"}
    [] d = "enc" -> {"jwt", "unsec", "sd", "sd5"}
    [] d = "issuer" -> {"alice", "aliceobject", "mallory", "malloryobject", "web", "webobject", "absent", "nameless"}
    [] d = "iss" -> {"absent", "alice", "mallory", "web", "empty"}
    [] d = "id" -> {"absent", "x"}
    [] d = "jti" -> {"absent", "x", "y", "empty"}
    [] d = "from" -> {"absent", "t1", "t1msec", "t1offset"}
    [] d = "nbf" -> {"absent", "t1", "t2", "zero", "t1half", "negative"}
    [] d = "iat" -> {"absent", "t1", "t2", "zero", "t1half"}
    [] d = "until" -> {"absent", "t9"}
    [] d = "exp" -> {"absent", "t9", "t8", "zero", "t9half"}
    [] d = "names" -> {"own", "other", "both"}
    [] d = "sub" -> {"same", "other", "absent"}
Plain == [model |-> "v1", enc |-> "jwt", issuer |-> "alice", iss |-> "alice", id |-> "x", jti |-> "x", from |-> "t1", nbf |-> "t1", iat |-> "t1", until |-> "t9", exp |-> "t9",
          names |-> "own", sub |-> "same"]
Base(b) == CASE b = "both" -> Plain
             [] b = "claims" -> [Plain EXCEPT !.issuer = "nameless", !.id = "absent", !.from = "absent", !.until = "absent"]
             [] b = "members" -> [Plain EXCEPT !.enc = "unsec", !.iss = "absent", !.jti = "absent", !.nbf = "absent", !.iat = "absent", !.exp = "absent", !.issuer = "aliceobject"]
             [] b = "v2" -> [Plain EXCEPT !.model = "v2", !.nbf = "t2", !.iat = "absent", !.exp = "t8", !.jti = "y"]
             [] b = "sd" -> [Plain EXCEPT !.enc = "sd", !.nbf = "absent", !.from = "absent"]
             [] b = "sd5" -> [Plain EXCEPT !.enc = "sd5", !.issuer = "absent"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Did(x) == x \in {"alice", "mallory"}
Member == CASE c.issuer \in {"alice", "aliceobject"} -> "alice"
            [] c.issuer \in {"mallory", "malloryobject"} -> "mallory"
            [] c.issuer \in {"web", "webobject"} -> "web"
            [] OTHER -> "absent"
Said(x) == x \notin {"absent", "empty"}
Issuer == IF Said(c.iss) THEN c.iss ELSE Member
Id == IF Said(c.jti) THEN c.jti ELSE c.id
From == IF c.iat # "absent" THEN c.iat ELSE IF c.nbf # "absent" THEN c.nbf ELSE c.from
\* two claims that disagree: either may be reported
FromAlt == IF c.iat # "absent" /\ c.nbf # "absent" THEN c.nbf ELSE From
Until == IF c.exp # "absent" THEN c.exp ELSE c.until

Structural == /\ c.enc = "unsec" => /\ Issuer # "absent" /\ (c.model = "v1" => From # "absent")
                                    /\ c.names # "other" \/ c.from = "absent"
                                    /\ ~(c.issuer = "nameless" /\ c.iss \in {"absent", "empty"})
Sensible == /\ Structural
            /\ c.names # "own" => c.from # "absent" /\ c.until # "absent"
            /\ c.names = "other" /\ c.model = "v1" => (c.enc \in {"jwt", "sd", "sd5"})
            \* the token repeats the credential's members there
            /\ c.enc = "sd5" => c.names = "own"
Verdict == CASE Did(c.iss) /\ Did(Member) /\ c.iss # Member -> "reject"
             [] c.issuer = "nameless" /\ ~Said(c.iss) -> "reject"
             \* without an issuer, and with an issuer whose keys nobody publishes, there is no proof
             [] c.enc # "unsec" /\ Issuer = "absent" -> "reject"
             [] c.enc # "unsec" /\ Issuer = "web" -> "unchecked"
             [] OTHER -> "ok"
OneIssuer == (Done /\ Sensible /\ Verdict = "ok") => ~(Said(c.iss) /\ Issuer # c.iss)
BaseOk == (Done /\ dev = <<>>) => Verdict = "ok" /\ Sensible
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> Verdict, issuer |-> Issuer, id |-> Id, from |-> From, fromalt |-> FromAlt, until |-> Until, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
