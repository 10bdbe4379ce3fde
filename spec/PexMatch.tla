------------------------------ MODULE PexMatch ------------------------------
(* Matching received presentations against a definition with two input        *)
(* descriptors.  The presentation holds credentials c1, c2 and c3; c1 answers *)
(* d1, c2 answers d2, c3 neither.  The submission has an entry e1 that, in    *)
(* the honest case, names d1 and points at c1, and an entry e2 for d2.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"enc", "kind", "layout", "sub", "map", "id1", "to1", "form1", "id2", "to2", "extra", "rule", "defid", "ctx", "state", "format", "schema", "loader", "names">>
Targets == {"c1", "c2", "c3", "out", "negative", "self", "type", "context", "syntax", "all", "recursive", "slice", "none", "nopath", "outvp", "absent", "null"}
Dom0(d) ==
  CASE d = "enc" -> {"ld", "jwt", "cwt"}
    [] d = "kind" -> {"plain", "ld", "jwt", "sdjwt", "cwt"}
    [] d = "layout" -> {"one", "two", "zero"}
    [] d = "sub" -> {"parsed", "typed", "value", "nil", "missing", "text", "list", "merged", "mergedmap"}
    [] d = "map" -> {"ok", "missing", "null", "text", "object", "empty"}
    [] d \in {"id1", "id2"} -> {"d1", "d2", "dx", "D1", "", "missing"}
    [] d = "to1" -> Targets
    [] d = "to2" -> {"c1", "c2", "c3", "out", "absent", "null"}
    [] d = "form1" -> {"nested", "flat", "deep", "bracket", "legacy"}
    [] d = "extra" -> {"none", "right", "unknown", "wrong", "outvp"}
    [] d = "rule" -> {"none", "all", "pick1", "min1", "upto1", "nested"}
    [] d = "defid" -> {"right", "other", "missing"}
    [] d = "ctx" -> {"both", "nocontext", "notype", "application"}
    [] d = "state" -> {"good", "tampered", "forged", "unsigned", "hidden"}
    [] d = "names" -> {"plain", "case", "prefix", "odd"}   \* how the descriptors' identifiers resemble each other
    [] d = "format" -> {"none", "right", "wrong", "otheralg"}
    [] d = "schema" -> {"off", "none", "right", "wrong", "wrongoff"}
    [] d = "loader" -> {"full", "empty"}            \* contexts known when schemas are checked
Plain == [enc |-> "ld", kind |-> "ld", layout |-> "one", sub |-> "parsed", map |-> "ok", id1 |-> "d1", to1 |-> "c1", form1 |-> "nested",
          id2 |-> "d2", to2 |-> "c2", extra |-> "none", rule |-> "none", defid |-> "right", ctx |-> "both", state |-> "good", format |-> "none", schema |-> "off", loader |-> "full", names |-> "plain"]
Base(b) == CASE b = "ld" -> Plain
             [] b = "jwt" -> [Plain EXCEPT !.enc = "jwt", !.kind = "jwt", !.form1 = "flat", !.rule = "pick1", !.to2 = "absent"]
             [] b = "two" -> [Plain EXCEPT !.enc = "jwt", !.kind = "sdjwt", !.layout = "two", !.sub = "mergedmap", !.rule = "min1"]
             [] b = "typed" -> [Plain EXCEPT !.kind = "jwt", !.sub = "typed", !.schema = "right", !.rule = "all", !.format = "right"]
             [] b = "cwt" -> [Plain EXCEPT !.enc = "cwt", !.kind = "cwt", !.layout = "two", !.sub = "merged", !.form1 = "flat"]
             [] b = "each" -> [Plain EXCEPT !.layout = "two", !.rule = "nested"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Merged == c.sub \in {"merged", "mergedmap"}
HasMap == c.sub \in {"parsed", "mergedmap"}               \* the submission is JSON, not a Go value
Sensible ==
  /\ c.map # "ok" => HasMap
  /\ (c.to1 = "outvp" \/ c.extra = "outvp") => Merged /\ c.layout = "two"
  /\ c.state = "hidden" => c.kind = "sdjwt"
  /\ c.state = "unsigned" => c.kind # "cwt"
  /\ c.state # "good" => c.to1 = "c1"
  /\ c.kind = "plain" => c.state = "good"
  /\ (c.format # "none") => c.kind # "cwt"
  /\ c.layout = "zero" => Merged
  /\ (c.enc = "cwt" /\ c.sub \in {"typed", "value", "nil"}) => FALSE
\* without merged submission, an entry can only point into its own presentation
InPlace(e) == (c.layout = "two" /\ ~Merged) => IF e.vp = 1 THEN e.to \in {"c1", "c3"} ELSE e.to = "c2"
\* where in the two-presentation layout the credentials are: c1 and c3 in the first, c2 in the second
Known(id) == id \in {"d1", "d2"}
Resolves(to) == to \in {"c1", "c2", "c3"}
Meets(to, id) ==
  CASE to = "c1" -> id = "d1" /\ c.state # "hidden"
    [] to = "c2" -> id = "d2"
    [] OTHER -> FALSE
Proven(to) == to = "c1" => c.state \in {"good", "hidden"}
Entries == IF c.map = "empty" THEN <<>> ELSE
  (IF c.to1 = "absent" THEN <<>> ELSE <<[id |-> c.id1, to |-> c.to1, vp |-> 1]>>)
  \o (IF c.to2 = "absent" THEN <<>> ELSE <<[id |-> c.id2, to |-> c.to2, vp |-> 2]>>)
  \o (CASE c.extra = "right" -> <<[id |-> "d2", to |-> "c2", vp |-> 2]>>
        [] c.extra = "unknown" -> <<[id |-> "dx", to |-> "c2", vp |-> 2]>>
        [] c.extra = "wrong" -> <<[id |-> "d2", to |-> "c3", vp |-> 2]>>
        [] c.extra = "outvp" -> <<[id |-> "d2", to |-> "outvp", vp |-> 2]>>
        [] OTHER -> <<>>)
\* the schema demands a type that all three credentials have (right) or none has (wrong)
SchemaOk == c.schema \in {"off", "right", "wrongoff"}
FormatOk == c.format \in {"none", "right"}
EntryOk(e) == Known(e.id) /\ Resolves(e.to) /\ InPlace(e) /\ Proven(e.to) /\ Meets(e.to, e.id) /\ SchemaOk /\ FormatOk
Answered == {Entries[i].id : i \in DOMAIN Entries}
Enough == CASE c.rule \in {"none", "all"} -> Answered = {"d1", "d2"}
            [] c.rule = "pick1" -> Cardinality(Answered) = 1
            [] c.rule = "min1" -> Answered # {}
            [] c.rule = "upto1" -> Cardinality(Answered) <= 1
            [] OTHER -> Answered \in {{"d1"}, {"d2"}}    \* nested: pick one of (all of A) and (all of B)
SubOk == c.sub \in {"parsed", "typed", "value", "merged", "mergedmap"} /\ c.map \in {"ok", "empty"}
Accept == SubOk /\ c.layout # "zero" /\ c.ctx \in {"both", "application"} /\ c.defid # "other" /\ (\A i \in DOMAIN Entries : EntryOk(Entries[i])) /\ Enough
Verdict == IF c.kind = "plain" /\ c.format # "none" THEN "any"
           ELSE IF c.defid = "missing" /\ Accept THEN "any"
           ELSE IF c.loader = "empty" /\ c.schema \in {"off", "wrongoff"} /\ Accept THEN "any"
           ELSE IF c.loader = "empty" /\ Entries # <<>> THEN "reject"
           ELSE IF Accept THEN "ok" ELSE "reject"

NothingForNothing == (Done /\ Entries = <<>> /\ c.rule # "upto1") => Verdict # "ok"
AllAnswersGood == (Done /\ Verdict = "ok") => \A i \in DOMAIN Entries : Entries[i].to \in {"c1", "c2"}
BaseOk == (Done /\ dev = <<>> /\ base # "each") => Verdict = "ok"
Emit == (Done /\ Sensible /\ Verdict # "any") =>
   PrintT("@@" \o ToJson([expect |-> Verdict, entries |-> Entries, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
