------------------------------ MODULE PexField ------------------------------
(* Whether one credential answers one input descriptor: field paths, filters  *)
(* (JSON Schema over the value found), optional fields, issuer-subject        *)
(* relation.  The subject's claim a, or the elements that hold its value, is  *)
(* c.a; claim b is "blue".                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"kind", "a", "path", "kw", "type", "optional", "second", "issub", "subject", "predicate">>
Strings == {"red", "blue", "empty", "reddish", "2020-06-01T00:00:00Z", "7text"}
Numbers == {"7", "7.5", "-1", "0", "8"}
Lists == {"list", "listone", "listempty", "listnum"}
Values == Strings \cup Numbers \cup Lists \cup {"absent", "true", "false", "null", "obj"}
Keywords == {"none", "bare", "constred", "const7", "constempty", "const0", "enum", "pattern", "patternpart", "minlen", "maxlen", "min7", "exmin7", "max7", "exmax7", "range", "min0", "max0",
             "notred", "nottype", "contains", "format", "allof", "allofbad", "allofbare", "allofconst", "allofmin", "two", "required", "items", "anyof", "minitems", "maxlen0"}
Types == {"absent", "string", "number", "integer", "boolean", "array", "object"}
Paths == {"dot", "bracket", "nested", "index", "wrongfirst", "bfirst", "blast", "absentfirst", "missing", "syntax", "vc", "deep", "issuer", "issued", "wrongcase", "hyphen", "many"}
Dom0(d) ==
  CASE d = "kind" -> {"plain", "ld", "jwt", "sdjwt", "sdhidden", "cwt"}
    [] d = "a" -> Values
    [] d = "path" -> Paths
    [] d = "kw" -> Keywords
    [] d = "type" -> Types
    [] d = "optional" -> {"no", "yes"}
    [] d = "second" -> {"none", "ok", "fails", "missing", "optional", "first"}
    [] d = "issub" -> {"none", "required", "preferred"}
    [] d = "subject" -> {"other", "issuer", "longer", "shorter", "upper", "none"}
    [] d = "predicate" -> {"none", "preferred", "required"}
Plain == [kind |-> "plain", a |-> "red", path |-> "dot", kw |-> "bare", type |-> "string", optional |-> "no", second |-> "none", issub |-> "none", subject |-> "other", predicate |-> "none"]
Base(b) == CASE b = "string" -> Plain
             [] b = "jwt" -> [Plain EXCEPT !.kind = "jwt", !.kw = "min7", !.type = "number", !.a = "7.5", !.path = "vc", !.second = "ok"]
             [] b = "sd" -> [Plain EXCEPT !.kind = "sdjwt", !.kw = "constred", !.path = "wrongfirst", !.second = "optional"]
             [] b = "list" -> [Plain EXCEPT !.kind = "cwt", !.kw = "contains", !.type = "array", !.a = "list", !.path = "nested", !.issub = "required", !.subject = "issuer"]
             [] b = "allof" -> [Plain EXCEPT !.kw = "allof", !.type = "absent", !.a = "7", !.optional = "yes", !.path = "index"]
             [] b = "absent" -> [Plain EXCEPT !.kw = "none", !.type = "absent", !.a = "absent", !.optional = "yes"]
             [] b = "alt" -> [Plain EXCEPT !.kw = "pattern", !.path = "bfirst", !.kind = "ld"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

IsString(v) == v \in Strings \cup {"issuer", "issued"}
\* twice the value, to have halves
Twice(v) == CASE v = "7" -> 14 [] v = "7.5" -> 15 [] v = "-1" -> -2 [] v = "0" -> 0 [] v = "8" -> 16 [] OTHER -> 0
Length(v) == CASE v = "red" -> 3 [] v = "blue" -> 4 [] v = "empty" -> 0 [] v = "reddish" -> 7 [] v = "7text" -> 5 [] OTHER -> 20
HasType(v, t) ==
  CASE t = "absent" -> TRUE
    [] t = "string" -> IsString(v)
    [] t = "number" -> v \in Numbers
    [] t = "integer" -> v \in Numbers \ {"7.5"}
    [] t = "boolean" -> v \in {"true", "false"}
    [] t = "array" -> v \in Lists
    [] t = "object" -> v = "obj"
Red(v) == v \in {"red", "reddish"}
\* list: red, blue; listone: red; listempty; listnum: 1, 7
Elements(v) == CASE v = "list" -> {"red", "blue"} [] v = "listone" -> {"red"} [] v = "listnum" -> {"1", "7"} [] OTHER -> {}
Accepts(v) ==
  /\ c.kw \in {"allof", "allofbad", "allofbare", "allofconst", "allofmin"} \/ HasType(v, c.type)
  /\ CASE c.kw \in {"none", "bare"} -> TRUE
       [] c.kw = "constred" -> v = "red"
       [] c.kw = "const7" -> v = "7"
       [] c.kw = "constempty" -> v = "empty"
       [] c.kw = "const0" -> v = "0"
       [] c.kw = "enum" -> v \in {"red", "7"}
       [] c.kw = "pattern" -> IsString(v) => v = "red"
       [] c.kw = "patternpart" -> IsString(v) => Red(v)
       [] c.kw = "minlen" -> IsString(v) => Length(v) >= 4
       [] c.kw = "maxlen" -> IsString(v) => Length(v) <= 3
       [] c.kw = "min7" -> v \in Numbers => Twice(v) >= 14
       [] c.kw = "exmin7" -> v \in Numbers => Twice(v) > 14
       [] c.kw = "max7" -> v \in Numbers => Twice(v) <= 14
       [] c.kw = "exmax7" -> v \in Numbers => Twice(v) < 14
       [] c.kw = "range" -> v \in Numbers => (Twice(v) >= 0 /\ Twice(v) <= 15)
       [] c.kw = "min0" -> v \in Numbers => Twice(v) >= 0
       [] c.kw = "max0" -> v \in Numbers => Twice(v) <= 0
       [] c.kw = "notred" -> v # "red"
       [] c.kw = "nottype" -> ~IsString(v)
       [] c.kw = "contains" -> v \in Lists => "red" \in Elements(v)
       [] c.kw = "format" -> IsString(v) => v \in {"2020-06-01T00:00:00Z", "issued"}
       [] c.kw = "allof" -> v \in Numbers /\ Twice(v) >= 0 /\ Twice(v) <= 15        \* both have a type
       [] c.kw = "allofbad" -> FALSE                                              \* contradiction
       [] c.kw = "allofbare" -> v \in Numbers => (Twice(v) >= 0 /\ Twice(v) <= 15)
       [] c.kw = "allofconst" -> v = "red"                                        \* const next to allOf
       [] c.kw = "allofmin" -> v \in Numbers => (Twice(v) >= 14 /\ Twice(v) <= 15)
       [] c.kw = "two" -> IsString(v) => Length(v) >= 4 /\ Red(v)                   \* minLength and pattern
       \* keywords of JSON Schema that the Go type of filters lacks
       [] c.kw = "required" -> v # "obj"
       [] c.kw = "items" -> v # "listnum"
       [] c.kw = "anyof" -> v \in {"red", "7"}
       [] c.kw = "minitems" -> v \in Lists => v \in {"list", "listnum"}
       [] c.kw = "maxlen0" -> IsString(v) => v = "empty"
       [] OTHER -> FALSE
Compat == c.kind \in {"jwt", "sdjwt", "sdhidden"}
A == IF c.kind = "sdhidden" THEN "absent" ELSE c.a
\* values at the path's alternatives, in order
Found ==
  CASE c.path \in {"dot", "bracket", "nested", "index", "wrongfirst", "absentfirst", "deep", "hyphen", "many"} -> <<A>>
    [] c.path = "bfirst" -> <<"blue", A>>
    [] c.path = "blast" -> <<A, "blue">>
    [] c.path = "vc" -> IF Compat THEN <<A>> ELSE <<"absent">>
    [] c.path = "issuer" -> <<"issuer">>
    [] c.path = "issued" -> <<"issued">>
    [] OTHER -> <<"absent">>
Present == {i \in DOMAIN Found : Found[i] # "absent"}
First == IF c.path = "syntax" THEN "error"
         ELSE IF \E i \in Present : Accepts(Found[i]) THEN "yes"
         ELSE IF Present = {} /\ c.optional = "yes" THEN "yes"
         ELSE "no"
Second == CASE c.second \in {"none", "ok", "optional", "first"} -> TRUE [] OTHER -> FALSE
Relation == c.issub = "required" => c.subject = "issuer"
Answers == First = "yes" /\ Second /\ Relation

Sensible ==
  \* predicates replace claims of the subject
  /\ (c.predicate = "required") => c.path \notin {"issuer", "issued"}
  /\ (c.kw = "none") => c.type = "absent"
  /\ (c.predicate # "none") => c.kw # "none"          \* predicates need a filter
  /\ (c.path \in {"issuer", "issued"}) => c.kind # "sdhidden"
  /\ (c.predicate # "none") => c.optional = "no"      \* not both, says the schema of definitions
  \* values that a list element, or nothing, can not tell apart
  /\ (c.kind = "ld") => c.a \notin {"null", "obj"} /\ c.path \notin {"nested", "hyphen"}
  \* the unsecured token that replaces a token needs the subject's ID
  /\ (c.predicate = "required" /\ c.kind = "jwt") => c.subject # "none"
  /\ (c.predicate = "required" /\ c.kind \in {"sdjwt", "sdhidden"}) => FALSE
Verdict == IF First = "any" /\ Second /\ Relation THEN "any"
           \* dates of tokens are compared as numbers
           ELSE IF c.path = "issued" /\ Compat /\ c.kw # "none" THEN "any"
           \* the evaluator of JSON Schema applies formats to values of every type
           ELSE IF c.kw = "format" /\ \E i \in Present : ~IsString(Found[i]) THEN "any"
           ELSE IF Answers THEN "match" ELSE "none"

TypeBinds == (Done /\ Verdict = "match" /\ (c.path = "dot" \/ (c.path = "vc" /\ Compat)) /\ c.kw \notin {"none", "allof", "allofbare", "allofconst", "allofmin"} /\ A # "absent") => HasType(A, c.type)
AbsentNeedsOptional == (Done /\ Verdict = "match" /\ Present = {}) => c.optional = "yes"
BaseOk == (Done /\ dev = <<>>) => Verdict = "match"
Emit == (Done /\ Sensible /\ Verdict # "any") => PrintT("@@" \o ToJson([expect |-> Verdict, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
