---------------------------- MODULE RelResource -----------------------------
(* The resources a credential lists: fetched, and compared with every digest  *)
(* stated for them.                                                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS K, Use
VARIABLES c, last, dev, base, pc

Order0 == <<"enc", "option", "sri", "mb", "fetch", "content", "name", "other", "place", "media">>
\* plain base64 as the standard has it, and the multibase text users of this library have
Right == {"s256", "s384", "s512", "m256", "m384", "u512"}
WrongSri == {"absent", "wrong256", "wrong384", "wrong512", "mislabelled", "longer", "shorter", "emptyhash", "unknownalg", "nodash", "noalg", "garbled", "foreign",
             "badbase", "hexwrong", "hash256as512", "m256wrong"}
RightMb == {"uheader", "zheader", "mheader", "fheader"}
RawMb == {"uraw", "zraw"}
WrongMb == {"wrongheader", "wrongraw", "one", "none", "noprefix", "cut", "extra", "foreign", "headeronly", "badlength", "zwrong", "alg512wrong", "twice"}
Dom0(d) ==
  CASE d = "enc" -> {"direct", "json", "jwt", "sd", "cwt", "enveloped", "vpstring", "vpobject", "vplist", "vpcwt"}
    [] d = "option" -> {"default", "vpcheck", "off"}
    [] d = "sri" -> Right \cup WrongSri
    [] d = "mb" -> {"absent"} \cup RightMb \cup RawMb \cup WrongMb
    [] d = "fetch" -> {"ok", "notfound", "error", "nocontent", "partial", "empty", "nobody", "unreachable", "cut", "moved"}
    [] d = "content" -> {"same", "altered", "truncated", "extended", "binary", "page"}
    [] d = "name" -> {"url", "query", "absent", "notaurl"}
    [] d = "other" -> {"alone", "good", "bad", "unreachable", "nodigest", "samegood", "samebad", "goodbad"}
    [] d = "place" -> {"first", "last"}
    [] d = "media" -> {"absent", "json"}
Plain == [enc |-> "direct", option |-> "default", sri |-> "s384", mb |-> "absent", fetch |-> "ok", content |-> "same", name |-> "url", other |-> "alone", place |-> "first", media |-> "absent"]
Base(b) == CASE b = "direct" -> Plain
             [] b = "mb" -> [Plain EXCEPT !.sri = "absent", !.mb = "uheader"]
             [] b = "json" -> [Plain EXCEPT !.enc = "json", !.mb = "uheader"]
             [] b = "jwt" -> [Plain EXCEPT !.enc = "jwt", !.sri = "s256"]
             [] b = "cwt" -> [Plain EXCEPT !.enc = "cwt", !.sri = "absent", !.mb = "zheader", !.other = "good"]
             [] b = "vp" -> [Plain EXCEPT !.enc = "vpobject", !.option = "vpcheck", !.sri = "m384"]
             [] b = "many" -> [Plain EXCEPT !.other = "good", !.place = "last"]
INSTANCE Deviate WITH Order <- Order0, Dom <- Dom0, BaseNames <- Use, BaseOf <- Base
Spec == DInit /\ [][DNext]_vars

\* where resources are looked at: by the validator and by ParseCredential; in a presentation, those of embedded objects only on request
Looked == CASE c.option = "off" -> FALSE
            [] c.enc \in {"vpobject", "vplist"} -> c.option = "vpcheck"
            [] OTHER -> TRUE
Sensible == /\ c.option = "off" => c.enc \in {"json", "jwt", "sd", "cwt", "enveloped"}
            /\ c.option = "vpcheck" => c.enc \in {"vpobject", "vplist", "vpstring", "vpcwt"}
            /\ c.fetch # "ok" => c.content = "same"
            /\ c.place = "last" => c.other # "alone"
            /\ c.name = "absent" => c.other = "alone"
            /\ c.name \in {"absent", "notaurl"} => c.fetch = "ok"
            /\ c.other \in {"samegood", "samebad"} => c.name \in {"url", "query"}

\* "binary" and "page" are other right contents: the digests are of what is served
Served == c.fetch = "ok" /\ c.name \in {"url", "query"}
Same == c.content \in {"same", "binary", "page"}
SriHolds == c.sri = "absent" \/ c.sri \in Right
MbHolds == c.mb = "absent" \/ c.mb \in RightMb
OtherHolds == c.other \in {"alone", "good", "samegood"}
Holds == Served /\ Same /\ SriHolds /\ MbHolds /\ OtherHolds
Verdict == CASE ~Looked -> "ok"
             \* the data model wants a digest; a digest without its multihash header is left open
             [] c.sri = "absent" /\ c.mb = "absent" -> IF Served /\ OtherHolds THEN "open" ELSE "reject"
             [] Served /\ Same /\ SriHolds /\ c.mb \in RawMb /\ OtherHolds -> "open"
             [] Holds -> "ok"
             [] OTHER -> "reject"
\* a credential is accepted only if everything it lists was there and matched
Integrity == (Done /\ Sensible /\ Looked /\ Verdict = "ok") => Served /\ Same /\ SriHolds /\ MbHolds /\ OtherHolds
BaseOk == (Done /\ dev = <<>>) => Verdict = "ok" /\ Sensible
Emit == (Done /\ Sensible) => PrintT("@@" \o ToJson([expect |-> Verdict, base |-> base, dev |-> dev, c |-> c]))
=============================================================================
