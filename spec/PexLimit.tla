------------------------------ MODULE PexLimit ------------------------------
(* What a presentation discloses when a descriptor limits disclosure: the     *)
(* claims its fields select, what cannot be hidden, and nothing else; and the *)
(* wallet keeps everything.                                                   *)
(* Subject: me, a, b, n: {x, y}, l: [p, q].                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Leaves == {"me", "a", "b", "x", "y", "p", "q"}
Order0 == <<"kind", "limit", "subject", "f1", "f2", "form", "opt", "limit2", "d2", "hide", "api", "model", "val", "name">>
Selections == {"a", "b", "me", "n", "nx", "ny", "l", "l0", "l1", "l10", "lall", "nall", "sub", "absent", "alta", "ba", "type", "id", "rec"}
Dom0(d) ==
  CASE d = "kind" -> {"sdflat", "sdstruct", "sdrec", "jwt", "ld", "plain"}
    [] d = "limit" -> {"none", "preferred", "required"}
    [] d = "subject" -> {"other", "issuer", "none", "pair"}
    [] d = "f1" -> Selections
    [] d = "f2" -> Selections \cup {"-"}
    [] d = "form" -> {"dot", "single", "double", "vc"}
    [] d = "opt" -> {"no", "yes"}
    [] d = "limit2" -> {"required", "none"}
    [] d = "d2" -> Selections \cup {"-"}
    [] d = "hide" -> {"none", "a", "x", "p", "n"}
    [] d = "api" -> {"vp", "array", "apply"}
    [] d = "model" -> {"v1", "v2"}
    [] d = "val" -> {"text", "emptyobj", "emptylist", "false", "zero", "emptytext"}
    [] d = "name" -> {"a", "dotted", "dashed", "star", "digit"}
Plain == [kind |-> "sdflat", limit |-> "required", subject |-> "other", f1 |-> "a", f2 |-> "-", form |-> "dot", opt |-> "no", limit2 |-> "required", d2 |-> "-", hide |-> "none",
          api |-> "vp", model |-> "v1", val |-> "text", name |-> "a"]
Base(b) == CASE b = "flat" -> Plain
             [] b = "struct" -> [Plain EXCEPT !.kind = "sdstruct", !.f1 = "nx", !.f2 = "l0"]
             [] b = "rec" -> [Plain EXCEPT !.kind = "sdrec", !.f1 = "nx", !.f2 = "l1"]
             [] b = "two" -> [Plain EXCEPT !.f1 = "b", !.d2 = "a"]
             [] b = "reco" -> [Plain EXCEPT !.kind = "sdrec", !.f1 = "n", !.d2 = "l"]
             [] b = "jwt" -> [Plain EXCEPT !.kind = "jwt", !.subject = "issuer", !.f2 = "nx"]
             [] b = "ld" -> [Plain EXCEPT !.kind = "ld", !.subject = "issuer", !.f2 = "l1"]
             [] b = "pair" -> [Plain EXCEPT !.kind = "plain", !.subject = "pair", !.f2 = "nx"]
             [] b = "open" -> [Plain EXCEPT !.limit = "none", !.kind = "sdrec"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

SD == c.kind \in {"sdflat", "sdstruct", "sdrec"}
\* leaves the wallet can show
Hidden == IF ~SD THEN {} ELSE CASE c.hide = "a" -> {"a"} [] c.hide = "x" -> {"x"} [] c.hide = "p" -> {"p"} [] c.hide = "n" -> {"x", "y"} [] OTHER -> {}
Shown == Leaves \ Hidden
NShown == c.hide # "n"
Always == CASE ~SD -> {} [] c.kind = "sdstruct" -> {"me", "b"} [] OTHER -> {"me"}
\* l0 is the first element shown
List == SelectSeq(<<"p", "q">>, LAMBDA e : e \in Shown)
At(i) == IF i <= Len(List) THEN {List[i]} ELSE {}
\* leaves a selection selects
Sel(s) ==
  (CASE s = "a" -> {"a"} [] s = "b" -> {"b"} [] s = "me" -> {"me"} [] s \in {"n", "nall"} -> {"x", "y"} [] s = "nx" -> {"x"} [] s = "ny" -> {"y"}
     [] s \in {"l", "lall"} -> {"p", "q"} [] s = "l0" -> At(1) [] s = "l1" -> At(2)
     [] s = "l10" -> IF Len(List) > 1 THEN At(2) ELSE At(1) [] s = "sub" -> Leaves [] s \in {"alta", "rec"} -> {"a"}
     [] s = "ba" -> {"b"} [] OTHER -> {}) \cap Shown
\* claims concealed as a whole are disclosed as a whole
Grain(S) == Shown \cap (IF c.kind # "sdflat" THEN S ELSE S \cup (IF S \cap {"x", "y"} # {} THEN {"x", "y"} ELSE {}) \cup (IF S \cap {"p", "q"} # {} THEN {"p", "q"} ELSE {}))
May(s) == CASE s = "ba" -> {"a", "b"} \cap Shown [] s = "l10" -> At(1) \cup At(2) [] OTHER -> Sel(s)
\* whether it selects a value
Found(s) == CASE s \in {"type", "id", "sub", "l", "-"} -> TRUE [] s = "n" -> NShown [] s = "absent" -> FALSE [] OTHER -> Sel(s) # {}
CanLimit == SD \/ c.subject \in {"issuer", "pair"}
D1 == (Found(c.f1) \/ c.opt = "yes") /\ Found(c.f2) /\ (c.limit = "required" => CanLimit)
D2 == c.d2 = "-" \/ (Found(c.d2) /\ (c.limit2 = "required" => CanLimit))
Must1 == CASE c.limit = "required" -> Always \cup Sel(c.f1) \cup Sel(c.f2) [] c.limit = "preferred" -> Sel(c.f1) \cup Sel(c.f2) [] OTHER -> Shown
May1 == IF c.limit = "required" THEN Always \cup Grain(May(c.f1) \cup May(c.f2)) ELSE Shown
Must2 == IF c.d2 = "-" THEN {} ELSE IF c.limit2 = "required" THEN Always \cup Sel(c.d2) ELSE Shown
May2 == IF c.d2 = "-" THEN {} ELSE IF c.limit2 = "required" THEN Always \cup Grain(May(c.d2)) ELSE Shown

Sensible ==
  /\ c.hide # "none" => SD
  /\ (c.hide = "n") => c.kind # "sdstruct"
  /\ (c.hide \in {"x", "p"}) => c.kind # "sdflat"
  /\ c.kind = "jwt" => c.subject \notin {"none", "pair"}
  /\ c.subject = "pair" => c.kind # "ld"
  /\ c.form = "vc" => c.kind \in {"jwt", "sdflat", "sdstruct", "sdrec"}
  /\ c.d2 = "-" => c.limit2 = "required"
  /\ c.name # "a" => /\ c.f1 \notin {"alta", "rec", "ba"} /\ c.f2 \notin {"alta", "rec", "ba"} /\ c.d2 \notin {"alta", "rec", "ba"}
                     /\ c.kind # "ld"
  \* displays of SD-JWTs leave out objects without members
  /\ SD => c.val # "emptyobj"
  \* proofs of linked data do not see these
  /\ (c.kind = "ld") => c.val \in {"text", "false", "zero"}
  \* paths select the same however they are written
  /\ (c.form # "dot") => c.api = "vp"
  \* a presentation written for tokens of model 1.1
Verdict == IF D1 /\ D2 THEN "ok" ELSE "none"
NothingInvented == (Done /\ Verdict = "ok") => (Must1 \subseteq May1 /\ Must2 \subseteq May2 /\ May1 \subseteq Shown)
BaseOk == (Done /\ dev = <<>>) => Verdict = "ok"
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> Verdict, must1 |-> Must1, may1 |-> May1, must2 |-> Must2, may2 |-> May2, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
