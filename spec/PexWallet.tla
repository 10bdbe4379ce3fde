----------------------------- MODULE PexWallet ------------------------------
(* Creating a presentation for a definition with two input descriptors, d1    *)
(* and d2, from a wallet of up to three credentials of several formats.       *)
(* A credential meets the constraints of the descriptors named in its s.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"k1", "s1", "k2", "s2", "k3", "s3", "ids", "deff", "descf", "con", "schema", "t1", "rule", "model", "dids", "api", "vpf">>
Formats == {"none", "ldp_vc", "jwt_vc", "both", "ldp", "jwt", "ldp_vp", "jwt_vp", "ldpjwt", "otheralg", "otherproof", "manyalg"}
Kinds == {"none", "plain", "ld", "jwt", "sdjwt", "cwt"}
Dom0(d) ==
  CASE d \in {"k1", "k2", "k3"} -> Kinds
    [] d \in {"s1", "s2", "s3"} -> {"d1", "d2", "both", "neither"}
    [] d = "ids" -> {"own", "same", "absent", "twice"}
    [] d \in {"deff", "descf"} -> Formats
    [] d = "con" -> {"fields", "nil", "nofields"}
    [] d = "schema" -> {"none", "type", "other", "two", "required", "requiredother"}
    [] d = "t1" -> {"degree", "bare"}
    [] d = "rule" -> {"none", "all", "pick"}
    [] d = "model" -> {"v1", "v2", "mixed"}
    [] d = "dids" -> {"own", "same"}
    [] d = "api" -> {"vp", "array"}
    [] d = "vpf" -> {"default", "jwt_vp"}
Plain == [k1 |-> "ld", s1 |-> "d1", k2 |-> "ld", s2 |-> "d2", k3 |-> "none", s3 |-> "neither", ids |-> "own", deff |-> "none", descf |-> "none",
          con |-> "fields", schema |-> "none", t1 |-> "degree", rule |-> "none", model |-> "v1", dids |-> "own", api |-> "vp", vpf |-> "default"]
Base(b) == CASE b = "two" -> Plain
             [] b = "mix" -> [Plain EXCEPT !.k1 = "jwt", !.k2 = "ld", !.s2 = "both", !.k3 = "sdjwt", !.s3 = "d2", !.deff = "both"]
             [] b = "one" -> [Plain EXCEPT !.k1 = "plain", !.s1 = "both", !.k2 = "none"]
             [] b = "typed" -> [Plain EXCEPT !.schema = "type", !.k2 = "jwt", !.s2 = "both", !.rule = "all"]
             [] b = "array" -> [Plain EXCEPT !.k1 = "jwt", !.s1 = "both", !.k3 = "jwt", !.s3 = "d1", !.api = "array", !.vpf = "jwt_vp", !.deff = "jwt_vc", !.k2 = "jwt", !.model = "v2"]
             [] b = "pick" -> [Plain EXCEPT !.rule = "pick", !.s1 = "neither", !.k2 = "cwt", !.descf = "ldp_vc"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Slots == 1..3
Kind(i) == <<c.k1, c.k2, c.k3>>[i]
Meets(i) == LET s == <<c.s1, c.s2, c.s3>>[i] IN CASE s = "both" -> {"d1", "d2"} [] s = "neither" -> {} [] OTHER -> {s}
Model(i) == IF c.model = "mixed" THEN IF i = 1 THEN "v2" ELSE "v1" ELSE c.model
Formal(f, k) ==
  CASE f = "none" -> TRUE
    [] f \in {"ldp_vc", "ldp", "ldp_vp"} -> k = "ld"
    [] f \in {"jwt_vc", "jwt", "jwt_vp", "manyalg"} -> k \in {"jwt", "sdjwt"}
    [] f \in {"both", "ldpjwt"} -> k \in {"ld", "jwt", "sdjwt"}
    [] OTHER -> FALSE                                  \* otheralg, otherproof
Format(d) == IF d = "d1" /\ c.descf # "none" THEN c.descf ELSE c.deff
\* d1 demands the schema; d2, when there are schemas, only that it is a credential
Schematic(d, i) == d = "d2" \/ c.schema = "none"
                   \/ CASE c.schema \in {"type", "required"} -> ~(i = 1 /\ c.t1 = "bare")
                        [] c.schema = "two" -> TRUE            \* any of two
                        [] OTHER -> FALSE                      \* other, requiredother
Constrained(d, i) == d \in Meets(i) \/ (d = "d1" /\ c.con \in {"nil", "nofields"})
Answers(d) == {i \in Slots : Kind(i) # "none" /\ Formal(Format(d), Kind(i)) /\ Schematic(d, i) /\ Constrained(d, i)}
Sensible ==
  /\ c.schema # "none" => c.model = "v1" /\ c.descf = "none"
  /\ c.t1 = "bare" => c.schema # "none"
  /\ (c.ids = "same") => c.k1 # "none" /\ c.k2 # "none"
  /\ c.dids = "same" => c.rule = "none"
  /\ (c.con = "nofields" => c.schema = "none")
Wanted == IF c.rule = "pick" THEN {{"d1"}, {"d2"}} ELSE {{"d1", "d2"}}
Solutions == {S \in Wanted : \A d \in S : Answers(d) # {}}
Verdict == IF c.dids = "same" THEN "reject"
           ELSE IF c.model = "mixed" /\ c.api = "vp" THEN "any"
           ELSE IF Solutions = {} THEN "reject" ELSE "ok"

FormatsBind == (Done /\ \E f \in {"otheralg", "otherproof"} : c.deff = f /\ c.descf = f) => Solutions = {}
FromNothing == (Done /\ \A i \in Slots : Kind(i) = "none") => Solutions = {}
BaseOk == (Done /\ dev = <<>>) => Verdict = "ok"
Emit == (Done /\ Sensible /\ Verdict # "any") =>
   PrintT("@@" \o ToJson([expect |-> Verdict, solutions |-> Solutions, a1 |-> Answers("d1"), a2 |-> Answers("d2"), base |-> base, dev |-> dev, c |-> c]))
=============================================================================
