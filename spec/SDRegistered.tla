---------------------------- MODULE SDRegistered -----------------------------
(* Claims that the issuer of an SD-JWT registers (issuer, subject, audience,  *)
(* identifiers, times, holder key) besides claims that are concealed.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Reg == {"iss", "sub", "aud", "jti", "id", "iat", "exp", "nbf", "cnf"}
Order0 == <<"ver", "layout", "decoy", "hash", "iss", "sub", "aud", "jti", "id", "iat", "exp", "nbf", "cnf", "inner", "top", "head", "reveal">>
Dom0(d) ==
  CASE d = "ver" -> {"two", "five", "default"}
    [] d = "layout" -> {"flat", "structured", "recursive", "always", "nonsd"}
    [] d = "decoy" -> {"no", "yes"}
    [] d = "hash" -> {"default", "sha384", "sha512"}
    [] d = "iss" -> {"plain", "absent"}
    [] d \in {"sub", "jti", "id", "aud"} -> {"absent", "plain", "odd"}
    [] d \in {"iat", "exp", "nbf"} -> {"absent", "past", "future", "epoch", "far"}
    [] d = "cnf" -> {"absent", "key"}
    [] d = "inner" -> {"none", "iss", "sub", "exp", "cnf", "id"}     \* a member of that name inside a claim
    [] d = "top" -> {"none", "sub", "jti", "id", "aud"}              \* a claim of that name which is not registered
    [] d = "head" -> {"none", "kid", "typ"}
    [] d = "reveal" -> {"none", "all"}
Plain == [ver |-> "default", layout |-> "flat", decoy |-> "no", hash |-> "default", iss |-> "plain", sub |-> "absent", aud |-> "absent", jti |-> "absent", id |-> "absent",
          iat |-> "absent", exp |-> "absent", nbf |-> "absent", cnf |-> "absent", inner |-> "none", top |-> "none", head |-> "none", reveal |-> "all"]
Full == [Plain EXCEPT !.sub = "plain", !.aud = "plain", !.jti = "plain", !.id = "plain", !.iat = "past", !.exp = "future", !.nbf = "past", !.cnf = "key", !.ver = "five", !.reveal = "none"]
Base(b) == CASE b = "plain" -> Plain
             [] b = "full" -> Full
             [] b = "deep" -> [Full EXCEPT !.layout = "recursive", !.ver = "two", !.reveal = "all"]
             [] b = "clear" -> [Full EXCEPT !.layout = "nonsd", !.decoy = "yes"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Registered == {r \in Reg : c[r] # "absent"}
InTime == /\ c.iss # "absent"                    \* required
          /\ c.exp \in {"absent", "future", "far"}
          /\ c.nbf \in {"absent", "past", "epoch"}
          /\ c.iat \in {"absent", "past", "epoch"}
Names == {"street", "given"} \cup (IF c.top = "none" THEN {} ELSE {c.top})
Hidden == IF c.layout = "nonsd" THEN {"given"} ELSE Names
Shown == Registered \cup (Names \ Hidden) \cup (IF c.reveal = "all" THEN Hidden ELSE {})

Clear == Done => Registered \cap Hidden = {} \/ ~(c.top = "none" \/ c[c.top] = "absent")
All == (Done /\ c.reveal = "all") => Shown = Registered \cup Names
BaseOk == (Done /\ dev = <<>>) => InTime
Sensible == /\ (c.top # "none" => c[c.top] = "absent")
            /\ (c.ver = "five" => c.layout # "none")
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> IF InTime THEN "ok" ELSE "reject", registered |-> Registered, hidden |-> Hidden, shown |-> Shown, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
