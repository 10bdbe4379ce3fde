------------------------------ MODULE History ------------------------------
(* The life of one credential or presentation and of everything derived from *)
(* it.  Objects are values: reading leaves every object as it is, deriving    *)
(* adds an object and leaves the others as they are, changing an object       *)
(* changes that object only (a presentation holds its credentials, so it may  *)
(* follow a change of one of them).  A proof is bound to the contents it was  *)
(* made over: the verdict on an object follows from what it holds now.        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Bases,    \* "creds", "vps" or "all"
          Steps,    \* length of a history
          Family,   \* most objects
          Brief     \* TRUE: few reading operations

Creds == {"plain", "plain2", "ld", "ldpair", "di2", "jwt", "jwt2", "jwtld", "unsec", "cwt", "cwt2", "sd", "sd2", "sdrec", "bbs"}
VPs   == {"vp", "vpone", "vp2", "vpld", "vpdi2", "vpjwt", "vpjwt2", "vpcwt"}
V2    == {"plain2", "di2", "jwt2", "cwt2", "sd2", "vp2", "vpdi2", "vpjwt2"}

CredReads == IF Brief THEN {"check", "checkctx", "marshal", "claims", "jwtmin", "displaymap", "disclose", "strict", "editraw"} ELSE
  {"check", "checkctx", "claims", "contents", "custom", "cwtclaims", "cwthex", "disclose", "discloseall", "displaymap", "headers",
   "jwtclaims", "jwtmin", "jwtstring", "makesd", "makesd5", "marshal", "marshalld", "opens", "proofs", "raw", "strict", "universal",
   "validate", "bbs", "editraw", "editclaims", "editlist"}
VPReads == IF Brief THEN {"check", "marshal", "jwtmin", "creds"} ELSE
  {"cbor", "check", "credbytes", "creds", "cwtclaims", "first", "jwtclaims", "jwtmin", "marshal", "editlist"}
Withs == IF Brief THEN {"withid", "withissuer", "withsubject", "withstatus"} ELSE
  {"withid", "withnoid", "withissuer", "withsubject", "withstatus", "withcontext", "withrefresh", "withexpired", "withfrom", "withissued", "withuntil"}
Presents == {"present", "presentjwt", "presentcwt", "presentld", "presentdi"}

\* t: "C" or "P"; env: "", "jwt", "cwt", "unsecured"; c: what was done to the contents; ec, eown: contents in the envelope
\* and whether their signer was the issuer; ps: proofs [t, c, own]; sd: opens with disclosures; holds: credentials inside that are
\* objects of the family; open: nothing is promised about proofs any more
Base(k) ==
  [t    |-> IF k \in VPs THEN "P" ELSE "C", base |-> k, v2 |-> k \in V2,
   env  |-> IF k \in {"jwt", "jwt2", "jwtld", "sd", "sd2", "sdrec", "vpjwt", "vpjwt2"} THEN "jwt"
            ELSE IF k \in {"cwt", "cwt2", "vpcwt"} THEN "cwt" ELSE "",
   c    |-> {}, ec |-> {}, eown |-> TRUE,
   eps  |-> IF k = "jwtld" THEN {[t |-> "ld", c |-> {}, own |-> TRUE]} ELSE {},
   ps   |-> IF k \in {"ld", "ldpair", "unsec", "jwtld", "vpld"} THEN {[t |-> "ld", c |-> {}, own |-> TRUE]}
            ELSE IF k = "bbs" THEN {[t |-> "bbs", c |-> {}, own |-> TRUE]}
            ELSE IF k \in {"di2", "vpdi2"} THEN {[t |-> "di", c |-> {}, own |-> TRUE]} ELSE {},
   sd   |-> k \in {"sd", "sd2", "sdrec"}, own |-> k # "bbs", holds |-> {}, open |-> FALSE]

Embedded(o) == IF o.ps = {} THEN "unproven"
               ELSE IF Cardinality({p.t : p \in o.ps}) > 1 THEN "open"
               ELSE IF \A p \in o.ps : p.c = o.c /\ p.own THEN "proven" ELSE "broken"

\* the verdict on what the envelope holds
Inside(o) == Embedded([o EXCEPT !.c = o.ec, !.ps = o.eps])

Verdict(o) == IF o.open THEN "open"
              ELSE IF o.env \in {"jwt", "cwt"} THEN (IF o.ec # o.c THEN "open" ELSE IF o.eown THEN "proven" ELSE "broken")
              ELSE IF o.env = "unsecured" THEN "unproven"
              ELSE Embedded(o)

VARIABLES kind, fam, hist
vars == <<kind, fam, hist>>

Init == /\ kind \in (CASE Bases = "creds" -> Creds [] Bases = "vps" -> VPs [] OTHER -> Creds \cup VPs)
        /\ fam = <<Base(kind)>>
        /\ hist = << >>

Log(op, i) == hist' = Append(hist, [op |-> op, on |-> i])

Read(i, op) == /\ op \in (IF fam[i].t = "C" THEN CredReads ELSE VPReads)
               /\ UNCHANGED <<kind, fam>>
               /\ Log(op, i)

Bare(o) == [o EXCEPT !.env = "", !.ps = {}, !.sd = FALSE]

DerivedCred(o, op) ==
  CASE op \in Withs -> [Bare(o) EXCEPT !.c = @ \cup {op}, !.own = IF op = "withissuer" THEN FALSE ELSE @, !.open = FALSE]
    [] op = "rebuild" -> [Bare(o) EXCEPT !.open = FALSE]
    [] op = "reparse" -> [o EXCEPT !.env = "", !.sd = FALSE]
    [] op = "again"   -> IF o.env = "unsecured" THEN [o EXCEPT !.env = "", !.c = o.ec, !.ps = o.eps]
                         ELSE IF o.env # "" THEN [o EXCEPT !.ps = o.eps] ELSE o
    [] op \in {"signjwt", "signmin"} -> [o EXCEPT !.env = "jwt", !.ec = o.c, !.eps = o.ps, !.eown = o.own, !.sd = FALSE, !.open = FALSE]
    [] op = "signcwt" -> [o EXCEPT !.env = "cwt", !.ec = o.c, !.eps = o.ps, !.eown = o.own, !.sd = FALSE, !.open = FALSE]
    [] op = "unsecure" -> [o EXCEPT !.env = "unsecured", !.ec = o.c, !.eps = o.ps, !.sd = FALSE]
    [] op \in {"display", "displaysome"} -> Bare(o)
    [] op = "bbsproof" -> [o EXCEPT !.base = "bbsd", !.ps = {[t |-> "bbsd", c |-> o.c, own |-> TRUE]}]

MayCred(o, op) ==
  CASE op = "again" -> IF o.env = "unsecured" THEN ~o.open /\ Inside(o) = "proven" ELSE Verdict(o) = "proven"
    [] op \in {"display", "displaysome"} -> o.sd /\ o.env = "jwt"
    [] op = "bbsproof" -> o.base = "bbs" /\ o.env = "" /\ Verdict(o) = "proven" /\ {p.t : p \in o.ps} = {"bbs"}
    [] op = "withcontext" -> ~o.v2
    [] OTHER -> TRUE

CredDerives == Withs \cup {"rebuild", "reparse", "again", "signjwt", "signmin", "signcwt", "unsecure", "display", "displaysome", "bbsproof"}

Derive(i) == /\ Len(fam) < Family
             /\ fam[i].t = "C"
             /\ \E op \in CredDerives : /\ MayCred(fam[i], op)
                                        /\ fam' = Append(fam, DerivedCred(fam[i], op))
                                        /\ Log(op, i)
             /\ UNCHANGED kind

\* a presentation of the credential object i
Present(i) == /\ Len(fam) < Family
              /\ fam[i].t = "C"
              /\ \E op \in Presents :
                   /\ fam' = Append(fam, [t |-> "P", base |-> "own", v2 |-> fam[i].v2,
                                          env |-> IF op = "presentjwt" THEN "jwt" ELSE IF op = "presentcwt" THEN "cwt" ELSE "",
                                          c |-> {}, ec |-> {}, eown |-> TRUE, eps |-> {},
                                          ps |-> IF op = "presentld" THEN {[t |-> "ld", c |-> {}, own |-> TRUE]}
                                                 ELSE IF op = "presentdi" THEN {[t |-> "di", c |-> {}, own |-> TRUE]} ELSE {},
                                          sd |-> FALSE, own |-> TRUE, holds |-> {i},
                                          \* credentials in envelopes are checked with the presentation
                                          open |-> fam[i].env # "" /\ Verdict(fam[i]) # "proven"])
                   /\ Log(op, i)
              /\ UNCHANGED kind

DerivedVP(o, op) ==
  CASE op = "clone"   -> o
    [] op = "again"   -> IF o.env = "cwt" /\ ~o.v2 THEN [o EXCEPT !.env = "", !.holds = {}] ELSE [o EXCEPT !.holds = {}]
    [] op = "signjwt" -> [o EXCEPT !.env = "jwt", !.ec = o.c]
    [] op = "signcwt" -> [o EXCEPT !.env = "cwt", !.ec = o.c]

DeriveVP(i) == /\ Len(fam) < Family
               /\ fam[i].t = "P"
               /\ \E op \in {"clone", "again", "signjwt", "signcwt"} :
                    /\ fam' = Append(fam, DerivedVP(fam[i], op))
                    /\ Log(op, i)
               /\ UNCHANGED kind

\* presentations that hold object i follow it
Follow(f, i) == [j \in DOMAIN f |-> IF i \in f[j].holds THEN [f[j] EXCEPT !.open = TRUE] ELSE f[j]]

AddProof(o, t) == [o EXCEPT !.ps = @ \cup {[t |-> t, c |-> o.c, own |-> o.own]}]

Change(i) ==
  /\ fam[i].t = "C"
  /\ \E ch \in {"addld", "adddi", "reset", "setfield", "setdisc"} :
       /\ CASE ch = "addld" -> fam[i].env = "" /\ ~fam[i].sd
            [] ch = "adddi" -> fam[i].env = "" /\ fam[i].v2
            [] ch = "setdisc" -> fam[i].sd /\ fam[i].env = "jwt"
            [] OTHER -> TRUE
       /\ fam' = Follow([fam EXCEPT ![i] = CASE ch = "addld" -> AddProof(@, "ld")
                                             [] ch = "adddi" -> AddProof(@, "di")
                                             [] ch = "reset" -> [@ EXCEPT !.ps = {}]
                                             [] ch = "setfield" -> [@ EXCEPT !.c = @ \cup {"field"}]
                                             [] OTHER -> @], i)
       /\ Log(ch, i)
  /\ UNCHANGED kind

ChangeVP(i) ==
  /\ fam[i].t = "P"
  /\ \E ch \in {"addld", "adddi", "addcred", "vpfield", "vpid", "vptype", "vpcontext"} :
       /\ fam[i].env = ""
       /\ ch = "adddi" => fam[i].v2
       /\ fam' = [fam EXCEPT ![i] = CASE ch = "addld" -> AddProof(@, "ld")
                                      [] ch = "adddi" -> AddProof(@, "di")
                                      \* another vocabulary may mean nothing to what is there
                                      [] ch \in {"vpcontext", "vpfield"} -> [@ EXCEPT !.open = TRUE]
                                      [] ch = "vpid" -> [@ EXCEPT !.c = @ \cup {<<ch, 0>>}]
                                      [] OTHER -> [@ EXCEPT !.c = @ \cup {<<ch, Len(hist)>>}]]
       /\ Log(ch, i)
  /\ UNCHANGED kind

Next == /\ Len(hist) < Steps
        /\ \E i \in DOMAIN fam : \/ \E op \in CredReads \cup VPReads : Read(i, op)
                                 \/ Derive(i) \/ Present(i) \/ DeriveVP(i) \/ Change(i) \/ ChangeVP(i)

Spec == Init /\ [][Next]_vars

\* signing puts a proof over what is there now
SignedIsProven == \A i \in DOMAIN fam : \A p \in fam[i].ps : Verdict(fam[i]) = "proven" /\ fam[i].env = "" => p.c = fam[i].c
\* whoever changed something under a proof is not proven
ModifiedIsNot == \A i \in DOMAIN fam : (fam[i].env = "" /\ \E p \in fam[i].ps : p.c # fam[i].c) => Verdict(fam[i]) # "proven"
\* an object is what its own steps made of it
Others == [][\A i \in DOMAIN fam : fam'[i] = fam[i] \/ hist'[Len(hist')].on = i \/ fam[i].holds # {}]_vars

Done == Len(hist) = Steps

Emit == Done => PrintT("@@" \o ToJson([expect |-> Verdict(fam[Len(fam)]), kind |-> kind, hist |-> hist,
                                        verdicts |-> [i \in DOMAIN fam |-> Verdict(fam[i])],
                                        anew |-> [i \in DOMAIN fam |-> IF fam[i].t = "C" /\ fam[i].env \in {"", "unsecured"} /\ ~fam[i].open
                                                                        THEN (IF fam[i].env = "" THEN Embedded(fam[i]) ELSE Inside(fam[i])) ELSE "open"]]))
=============================================================================
