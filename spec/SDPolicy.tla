------------------------------ MODULE SDPolicy ------------------------------
(* Decision of an SD-JWT verifier (and of a holder that applies the V5 rules) *)
(* over the product of its policy and the features of what it receives.  A    *)
(* behaviour starts from an acceptable combination and deviates from it in at *)
(* most K dimensions.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K
VARIABLES c, last, dev, base, pc
vars == <<c, last, dev, base, pc>>

Order == <<"algs", "leeway", "ptyp", "req", "pnonce", "paud", "halgs", "alg", "sig", "exp", "nbf", "iat", "typ", "cnf",
           "kb", "kkey", "kalg", "ktyp", "knonce", "kaud", "kexp", "knbf", "kiat", "where">>
\* times are offsets in seconds from now: "in30" is 30 s in the future, "ago30" 30 s in the past
Dom(d) == CASE d = "algs" -> {"default", "has", "hasnot", "empty", "none"}
            [] d = "leeway" -> {"default", "zero", "hour"}
            [] d = "ptyp" -> {"unset", "JWT", "vc+sd-jwt"}
            [] d = "req" -> {TRUE, FALSE}
            [] d = "pnonce" -> {"unset", "n1"}
            [] d = "paud" -> {"unset", "a1"}
            [] d = "halgs" -> {"default", "has", "hasnot", "empty"}
            [] d = "alg" -> {"EdDSA", "RS256", "ES256", "PS256", "none"}
            [] d = "sig" -> {"good", "otherkey", "payload", "header", "stripped"}
            [] d \in {"exp", "kexp"} -> {"absent", "in3600", "float3600", "ago30", "ago7000", "zero", "garbage"}
            [] d \in {"nbf", "iat", "knbf", "kiat"} -> {"absent", "ago30", "in30", "in3000", "in7000", "garbage"}
            [] d = "typ" -> {"absent", "JWT", "vc+sd-jwt"}
            [] d = "cnf" -> {"absent", "holder", "other", "nojwk", "badjwk", "string"}
            [] d = "kb" -> {TRUE, FALSE}
            [] d = "kkey" -> {"holder", "other", "issuer", "payload", "stripped"}
            [] d = "kalg" -> {"EdDSA", "ES256", "none"}
            [] d = "ktyp" -> {"absent", "kb+jwt", "JWT", "other"}
            [] d = "knonce" -> {"n1", "n2", "absent", "prefix", "shorter", "case", "space"}
            [] d = "kaud" -> {"a1", "a2", "absent", "prefix", "shorter", "case", "space"}
            [] d = "where" -> {"top", "vc"}
Plain == [algs |-> "default", leeway |-> "default", ptyp |-> "unset", req |-> FALSE, pnonce |-> "unset", paud |-> "unset", halgs |-> "default",
          alg |-> "EdDSA", sig |-> "good", exp |-> "in3600", nbf |-> "absent", iat |-> "ago30", typ |-> "absent", cnf |-> "absent",
          kb |-> FALSE, kkey |-> "holder", kalg |-> "EdDSA", ktyp |-> "kb+jwt", knonce |-> "n1", kaud |-> "a1",
          kexp |-> "absent", knbf |-> "absent", kiat |-> "ago30", where |-> "top"]
Bound == [Plain EXCEPT !.req = TRUE, !.pnonce = "n1", !.paud = "a1", !.cnf = "holder", !.kb = TRUE, !.iat = "absent", !.exp = "absent"]
Typed == [Bound EXCEPT !.ptyp = "vc+sd-jwt", !.typ = "vc+sd-jwt", !.ktyp = "absent", !.algs = "has", !.halgs = "has", !.leeway = "hour"]

Default == {"EdDSA", "RS256"}
Leeway(x) == CASE x = "default" -> 60 [] x = "zero" -> 0 [] x = "hour" -> 3600
ExpOk(t, l) == CASE t \in {"absent", "in3600", "float3600"} -> TRUE [] t = "ago30" -> 30 <= l [] t = "ago7000" -> FALSE [] OTHER -> FALSE
FromOk(t, l) == CASE t \in {"absent", "ago30"} -> TRUE [] t = "in30" -> 30 <= l [] t = "in3000" -> 3000 <= l [] OTHER -> FALSE
Allowed(list, alg) == /\ alg # "none"
                      /\ CASE list = "default" -> alg \in Default [] list = "has" -> TRUE [] list = "hasnot" -> FALSE
                           [] list = "empty" -> FALSE [] list = "none" -> alg = "none"
Token(l) == /\ c.sig = "good"
            /\ ExpOk(c.exp, l) /\ FromOk(c.nbf, l) /\ FromOk(c.iat, l)
TypOk == c.ptyp = "unset" \/ c.typ = c.ptyp
Kb == LET l == Leeway(c.leeway) IN
      /\ c.cnf = "holder" /\ c.kkey = "holder"
      /\ c.ktyp # "other"
      /\ Allowed(c.halgs, c.kalg)
      /\ ExpOk(c.kexp, l) /\ FromOk(c.knbf, l) /\ FromOk(c.kiat, l)
      /\ (c.pnonce = "n1" => c.knonce = "n1")
      /\ (c.paud = "a1" => c.kaud = "a1")
Verifier == /\ Token(Leeway(c.leeway)) /\ Allowed(c.algs, c.alg) /\ TypOk
            /\ (c.req => c.kb)
            /\ (c.kb => Kb)
\* a holder applying the V5 rules: same token rules (no default list, no default leeway), and no key binding may be attached
Holder == /\ Token(IF c.leeway = "default" THEN 0 ELSE Leeway(c.leeway))
          /\ c.algs # "default" /\ Allowed(c.algs, c.alg) /\ TypOk
          /\ ~c.kb

Init == /\ base \in {"plain", "bound", "typed"}
        /\ c = (CASE base = "plain" -> Plain [] base = "bound" -> Bound [] base = "typed" -> Typed)
        /\ last = 0 /\ dev = 0 /\ pc = "pick"
Deviate == /\ pc = "pick" /\ dev < K
           /\ \E i \in (last + 1)..Len(Order) : \E v \in Dom(Order[i]) \ {c[Order[i]]} :
                 /\ c' = [c EXCEPT ![Order[i]] = v] /\ last' = i
           /\ dev' = dev + 1 /\ UNCHANGED <<base, pc>>
Decide == pc = "pick" /\ pc' = "done" /\ UNCHANGED <<c, last, dev, base>>
Next == Deviate \/ Decide
Spec == Init /\ [][Next]_vars

NoneNever == (pc = "done" /\ Verifier) => c.alg # "none" /\ (c.kb => c.kalg # "none")
Fresh == (pc = "done" /\ Verifier) => c.exp \notin {"ago7000", "zero"} /\ c.nbf # "in7000"
BaseOk == (pc = "done" /\ dev = 0) => Verifier
Emit == pc = "done" => PrintT("@@" \o ToJson([expect |-> (IF Verifier THEN "ok" ELSE "reject"), holder |-> (IF Holder THEN "ok" ELSE "reject"),
                                               base |-> base, dev |-> dev, c |-> c]))
=============================================================================
