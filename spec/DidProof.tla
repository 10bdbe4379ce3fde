----------------------------- MODULE DidProof ------------------------------
(* Proofs on DID documents.  A document is signed up to three times, sent,   *)
(* perhaps changed on the way (the document, one of its proofs, or which     *)
(* proofs it carries) and checked.  Who signed which version under which     *)
(* name is all that counts.                                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"shape", "made", "times", "first", "again", "third", "doc", "opt", "at", "set", "expect", "tools">>
Signers == {"own", "second", "mallory", "forged", "agreement", "unknown"}
Dom0(d) ==
  CASE d = "shape" -> {"plain", "one", "relative", "embedded", "dates", "services", "extra", "alsoknown", "based"}
    [] d = "made" -> {"full", "bare", "auth"}                    \* purpose, domain and challenge that are signed
    [] d = "times" -> {"seconds", "fraction", "offset", "now", "expires", "expired"}
    [] d = "first" -> Signers
    [] d \in {"again", "third"} -> {"none", "own", "second", "mallory", "forged"}
    [] d = "doc" -> {"none", "order", "service", "addservice", "dropservice", "key", "addkey", "dropkey", "relation", "droprelation", "id", "alias", "controller", "type"}
    [] d = "opt" -> {"none", "created", "purpose", "domain", "challenge", "vm", "bit", "short", "other", "type", "nosig", "nomethod", "unknown"}
    [] d = "at" -> {1, 2, 3}
    [] d = "set" -> {"kept", "stripped", "empty", "swapped", "dropfirst", "foreign", "otherfirst", "otherlast"}
    [] d = "expect" -> {"default", "right", "full", "purpose", "domain", "challenge"}
    [] d = "tools" -> {"both", "ld", "di", "none"}
Plain == [shape |-> "plain", made |-> "full", times |-> "seconds", first |-> "own", again |-> "none", third |-> "none", doc |-> "none", opt |-> "none", at |-> 1, set |-> "kept",
          expect |-> "default", tools |-> "both"]
LDs == {"ed18v", "ed18j", "ed20v", "jwsEd", "jwsP256", "k256v", "k256j"}
DIs == {"eddsa", "ecdsa", "ecdsa384"}
Base(b) == CASE b = "ldset" -> [Plain EXCEPT !.again = "second", !.third = "mallory", !.shape = "services"]
             [] b = "diset" -> [Plain EXCEPT !.again = "second", !.third = "mallory", !.shape = "services", !.expect = "right"]
             [] b \in DIs -> [Plain EXCEPT !.expect = "right"]
             [] OTHER -> Plain
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars
IsDI == base \in DIs \cup {"diset"}

\* ---- the proofs the document carries when it is checked ----
Listed == <<c.first>> \o (IF c.again = "none" THEN <<>> ELSE <<c.again>>) \o (IF c.third = "none" THEN <<>> ELSE <<c.third>>)
Made == [i \in 1..Len(Listed) |-> [by |-> Listed[i], edited |-> (i = c.at /\ c.opt # "none"), foreign |-> FALSE]]
Strange == [by |-> "own", edited |-> FALSE, foreign |-> TRUE]       \* a genuine proof, of another document
Carried == CASE c.set \in {"stripped", "empty"} -> <<>>
             [] c.set = "dropfirst" -> Tail(Made)
             [] c.set \in {"foreign", "otherlast"} -> Append(Made, Strange)  \* other...: one of the other kind
             [] c.set = "otherfirst" -> <<Strange>> \o Made
             [] c.set = "swapped" -> [i \in 1..Len(Made) |-> Made[Len(Made) + 1 - i]]
             [] OTHER -> Made
\* ---- the document that was signed ----
SameDocument == c.doc \in {"none", "order"}
Genuine(p) == p.by \in {"own", "second", "mallory"} /\ ~p.edited /\ ~p.foreign
Expected == CASE ~IsDI -> TRUE
              [] c.expect = "right" -> TRUE
              [] c.expect = "default" -> c.made # "auth"
              [] c.expect = "full" -> c.made = "full"
              [] OTHER -> FALSE
Unexpired == c.times # "expired"
Equipped == IF IsDI THEN c.tools \in {"both", "di"} ELSE c.tools \in {"both", "ld"}
Proven == /\ Carried # <<>> /\ \A i \in 1..Len(Carried) : Genuine(Carried[i])
          /\ SameDocument /\ Expected /\ Unexpired /\ Equipped

\* Only documents somebody who holds the named key signed as they are.
Authentic == (Done /\ Proven) => /\ \A i \in 1..Len(Listed) : (c.set = "dropfirst" /\ i = 1) \/ Listed[i] \notin {"forged", "agreement", "unknown"}
                                 /\ c.doc \in {"none", "order"} /\ c.set \notin {"stripped", "empty", "foreign", "otherfirst", "otherlast"}
EditsTell == (Done /\ c.opt # "none" /\ c.at <= Len(Listed) /\ ~(c.set = "dropfirst" /\ c.at = 1)) => ~Proven
BaseOk == (Done /\ dev = <<>>) => Proven

Sensible ==
  /\ ~IsDI => c.expect = "default" /\ c.times \notin {"expires", "expired"}
  /\ c.at <= Len(Listed)
  /\ c.at # 1 => c.opt # "none"
  /\ c.third # "none" => c.again # "none"
  /\ c.opt = "domain" => c.made # "bare"
  /\ c.opt = "challenge" => c.made # "bare"
  \* linked-data proofs without a purpose of their own get the default one
  /\ c.shape = "one" => c.doc \notin {"service", "dropservice", "dropkey", "droprelation", "alias"}
  /\ c.shape # "alsoknown" => c.doc # "alias"
  /\ c.shape \in {"relative", "based"} => c.doc \notin {"id", "controller"}   \* both follow from the document's identifier
  /\ c.set = "dropfirst" => c.first \notin {"agreement", "unknown"}            \* keys no signer is given
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> (IF Proven THEN "ok" ELSE "reject"), base |-> base, dev |-> dev, carried |-> Len(Carried), signed |-> Len(Listed), c |-> c]))
=============================================================================
