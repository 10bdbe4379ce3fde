----------------------------- MODULE StatusList -----------------------------
(* What checking the status of a credential reports.  The credential is      *)
(* alice's.  It has one or two status entries; the first one points at a     *)
(* list that varies, the second one at the same list or at a list of alice's *)
(* in which only bit 5 is set.                                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"type", "idx", "purpose", "url", "size", "second", "order", "ids", "listpurpose", "issuer", "listissuer", "bits", "length", "encoding", "subject", "format", "proof", "transport">>
Idx == {"0", "3", "7", "8", "13", "15", "16", "128", "70000", "131071", "-1", "abc", "empty", "spaced", "fraction", "number", "missing", "huge", "wrap32", "wrap64"}
Dom0(d) ==
  CASE d = "type" -> {"StatusList2021Entry", "BitstringStatusListEntry", "RevocationList2020Status", "missing"}
    [] d = "idx" -> Idx
    [] d = "purpose" -> {"revocation", "suspension", "message", "missing", "number"}
    [] d = "url" -> {"http", "hub", "number", "missing"}
    [] d = "size" -> {"absent", "one", "two", "twobare", "twoshort", "zero", "negative", "text"}
    [] d = "second" -> {"none", "clear", "set", "suspended", "same", "unknown", "noindex", "first"}
    [] d = "order" -> {"listed", "reversed"}
    [] d = "ids" -> {"distinct", "same", "none", "list"}
    [] d = "listpurpose" -> {"same", "absent", "other"}
    [] d = "issuer" -> {"text", "object", "absent"}
    [] d = "listissuer" -> {"same", "object", "mallory", "absent", "prefix", "longer", "upper", "path"}
    [] d = "bits" -> {"none", "at", "left", "right", "mirror", "all", "allbut", "two0", "two1"}
    [] d = "length" -> {"one", "two", "long", "standard"}
    [] d = "encoding" -> {"right", "members", "other", "base58", "padded", "plain", "truncated", "junk", "empty", "number", "missing"}
    [] d = "subject" -> {"object", "list", "none", "emptylist", "text"}
    [] d = "format" -> {"jwt", "ld", "cwt"}
    [] d = "proof" -> {"good", "forged", "none"}
    [] d = "transport" -> {"ok", "status404", "status201", "fail", "cut", "junk", "empty"}
Plain == [type |-> "BitstringStatusListEntry", idx |-> "13", purpose |-> "revocation", url |-> "http", size |-> "absent", second |-> "none", order |-> "listed", ids |-> "distinct", listpurpose |-> "same",
          issuer |-> "text", listissuer |-> "same", bits |-> "none", length |-> "two", encoding |-> "right", subject |-> "object", format |-> "jwt", proof |-> "good", transport |-> "ok"]
Base(b) == CASE b = "clear" -> Plain
             [] b = "revoked" -> [Plain EXCEPT !.bits = "at", !.type = "StatusList2021Entry", !.idx = "3"]
             [] b = "suspended" -> [Plain EXCEPT !.bits = "at", !.purpose = "suspension", !.second = "clear", !.url = "hub", !.format = "ld"]
             [] b = "second" -> [Plain EXCEPT !.second = "set", !.bits = "allbut", !.type = "StatusList2021Entry", !.idx = "8"]
             [] b = "two" -> [Plain EXCEPT !.size = "two", !.idx = "3", !.bits = "two1", !.format = "cwt"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

Number(i) == CASE i = "0" -> 0 [] i = "3" -> 3 [] i = "7" -> 7 [] i = "8" -> 8 [] i = "13" -> 13 [] i = "15" -> 15 [] i = "16" -> 16
               [] i = "128" -> 128 [] i = "70000" -> 70000 [] i = "131071" -> 131071 [] OTHER -> -1
N == Number(c.idx)
Length == CASE c.length = "one" -> 8 [] c.length = "two" -> 16 [] c.length = "long" -> 4096 [] OTHER -> 131072
Bitstring == c.type = "BitstringStatusListEntry"
Sensible ==
  /\ c.size # "absent" => Bitstring
  /\ c.length = "standard" => c.bits \notin {"all", "allbut"}
  /\ c.second = "none" => c.ids # "same"
  /\ c.second = "none" => c.order = "listed"
  /\ c.bits \in {"two0", "two1"} => c.size = "two"
  /\ (c.bits \in {"at", "left", "right", "mirror", "allbut"}) => N >= 0
  /\ (c.transport # "ok") => c.encoding = "right" /\ c.proof = "good"
Wanted ==
  CASE c.bits = "none" -> {} [] c.bits = "at" -> {N} [] c.bits = "left" -> {N - 1} [] c.bits = "right" -> {N + 1}
    [] c.bits = "mirror" -> {8 * (N \div 8) + 7 - (N % 8)} [] c.bits = "all" -> 0..(Length - 1)
    [] c.bits = "allbut" -> (0..(Length - 1)) \ {N} [] c.bits = "two0" -> {2 * N} [] OTHER -> {2 * N + 1}
Bits == {i \in Wanted : i >= 0 /\ i < Length}
\* the list can be read, and is the issuer's
SizeOk == c.size \in {"absent", "one", "two"}
EntryOk == /\ c.type \in {"StatusList2021Entry", "BitstringStatusListEntry"}
           /\ c.purpose # "missing" /\ c.url \in {"http", "hub"} /\ SizeOk /\ N >= 0
ListOk == /\ c.transport = "ok" /\ c.issuer # "absent" /\ c.listissuer \in {"same", "object"}
          /\ c.encoding \in {"right", "members"} /\ c.subject \in {"object", "list"}
Size == IF c.size = "two" THEN 2 ELSE 1
Fits == N * Size + Size <= Length
IsSet == \E i \in 0..(Size - 1) : (N * Size + i) \in Bits
Report(p, s) == IF ~s THEN "clear" ELSE IF p \in {"revocation"} THEN "revoked" ELSE IF p = "suspension" THEN "suspended" ELSE "error"
First == IF ~EntryOk \/ ~ListOk \/ ~Fits THEN "error" ELSE Report(c.purpose, IsSet)
Second == CASE c.second = "none" -> "clear"
            [] c.issuer = "absent" -> "error"
            [] c.second = "clear" -> "clear"              \* index 4 of the other list
            [] c.second = "set" -> "revoked"              \* index 5 of the other list
            [] c.second = "suspended" -> "suspended"      \* index 5, purpose suspension
            [] c.second \in {"unknown", "noindex"} -> "error"
            \* same entry again (first: index 0 of the first list, revocation, in its encoding)
            [] c.second = "same" -> First
            [] OTHER -> IF ~ListOk \/ c.url \notin {"http", "hub"} THEN "error" ELSE Report("revocation", 0 \in Bits)
\* a check reports one of the statuses that are not clear
Reports == ({First, Second} \ {"clear"}) \cup (IF c.listpurpose = "other" THEN {"error"} ELSE {})
Verdict == IF c.encoding = "base58" /\ Bitstring THEN "any"
           ELSE IF c.encoding = "padded" THEN "any"
           ELSE IF c.second = "first" /\ ~(c.type \in {"StatusList2021Entry", "BitstringStatusListEntry"}) THEN "any"
           ELSE IF c.purpose \in {"number"} /\ First = "clear" THEN "any"
           ELSE IF c.proof # "good" /\ ListOk /\ EntryOk THEN "unproven"
           ELSE IF c.listpurpose = "other" /\ Reports = {"error"} THEN "any"
           ELSE IF Reports = {} THEN "clear" ELSE "set"

SetIsNeverClear == (Done /\ Sensible /\ EntryOk /\ ListOk /\ Fits /\ IsSet) => Verdict # "clear"
OtherIssuerNeverClear == (Done /\ Sensible /\ c.listissuer \in {"mallory", "absent", "prefix", "longer", "upper", "path"}) => Verdict # "clear"
SecondCounts == (Done /\ Sensible /\ c.second \in {"set", "suspended"}) => Verdict # "clear"
BaseOk == (Done /\ dev = <<>>) => "error" \notin Reports
Emit == (Done /\ Sensible /\ Verdict # "any") => PrintT("@@" \o ToJson([expect |-> Verdict, reports |-> Reports, bits |-> (IF Cardinality(Bits) > 20 THEN <<>> ELSE Bits), length |-> Length, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
