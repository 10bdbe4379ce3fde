------------------------------- MODULE SDFlow -------------------------------
(* The life of one credential that its issuer made selectively disclosable.

   The issuer seals the subject's claims as its options say. From then on the credential is either on the wire, as a
   token with disclosures, or an object in somebody's hands, with disclosures. Steps marshal it with a choice of
   claims, put it into words in the other ways there are, parse it, drop disclosures, present it as a holder, carry it
   in a presentation, or display it. Whatever the history, what can be seen is the original restricted to the
   disclosures that were kept at every step.                                                                        *)
EXTENDS SDJwtTree, Json

CONSTANTS MaxSteps, Lean

VARIABLES case, sealed, at, have, bound, log

vars == <<case, sealed, at, have, bound, log>>

Id == M("id", P(1))
Shapes == [
  flat   |-> O(<<Id, M("level", P(2)), M("name", P(3))>>),
  same   |-> O(<<Id, M("name", P(2)), M("address", O(<<M("town", P(3)), M("name", P(4)), M("geo", O(<<M("lat", P(5)), M("name", P(6))>>))>>))>>),
  list   |-> O(<<Id, M("langs", A(<<P(2), P(3)>>)), M("level", P(4))>>),
  mixed  |-> O(<<Id, M("tags", A(<<O(<<M("name", P(2))>>), P(3)>>)), M("address", O(<<M("town", P(4)), M("list", A(<<P(5), P(6)>>))>>))>>),
  ones   |-> O(<<Id, M("address", O(<<M("town", P(2)), M("list", A(<<P(3)>>)), M("name", O(<<M("list", A(<<P(4)>>))>>))>>))>>),
  nulls  |-> O(<<Id, M("nick", Null), M("address", O(<<M("nick", Null), M("town", P(2))>>))>>),
  words  |-> O(<<Id, M("vc", P(2)), M("exp", P(3)), M("credentialSubject", O(<<M("type", P(4)), M("iss", P(5))>>))>>),
  bare   |-> O(<<Id>>),
  twoids |-> O(<<Id, M("address", O(<<M("id", P(2)), M("town", P(3))>>)), M("name", P(4))>>),
  deep   |-> O(<<Id, M("a", O(<<M("b", O(<<M("c", O(<<M("d", P(2)), M("e", P(3))>>)), M("f", P(4))>>))>>)), M("name", P(5))>>) ]

Upto2(X) == Upto1(X) \cup {{x, y} : x, y \in X}
\* What an issuer may ask for. "direct" is a credential that its issuer hands out in one step, without options.
Options(t) ==
  LET ps == Paths(t, "") \ {"", "id"}  os == ObjPaths(t, "") \ {""} IN
  {o \in [v : {0, 2, 5}, ign : Upto1(ps), alw : Upto1(os), rec : Upto2(os), hash : {"", "384", "512"}] :
     /\ (o.v # 5 => o.alw = {} /\ o.rec = {})
     /\ Cardinality(o.ign) + Cardinality(o.alw) + (IF o.hash = "" THEN 0 ELSE 1) <= 1
     /\ (Lean => Cardinality(o.rec) + Cardinality(o.ign) + Cardinality(o.alw) <= 1)}
Plainly == [v |-> 0, ign |-> {}, alw |-> {}, rec |-> {}, hash |-> ""]

SealAs(o) == [v |-> IF o.v = 5 THEN 5 ELSE 2, struct |-> TRUE, ign |-> o.ign \cup {"id"}, alw |-> o.alw, rec |-> o.rec]

\* The disclosures there are, and the name of the claim each is for (elements of lists have none).
All == Digests(sealed)
RECURSIVE Names(_)
Names(t) ==
  CASE t.k = "o" -> UNION ({Names(t.ch[i].v) : i \in 1..Len(t.ch)} \cup {{[d |-> t.sd[i].d, n |-> t.sd[i].n]} \cup Names(t.sd[i].v) : i \in 1..Len(t.sd)})
    [] t.k = "a" -> UNION {Names(t.el[i]) : i \in 1..Len(t.el)}
    [] t.k = "h" -> {[d |-> t.d, n |-> ""]} \cup Names(t.v)
    [] OTHER -> {}
Named(ds, ns) == {x.d : x \in {y \in Names(sealed) : y.d \in ds /\ y.n \in ns}}
Known == {x.n : x \in Names(sealed)} \ {""}

\* Every disclosure is for something that is seen.
Closed(ds) == Reached(sealed, ds) = ds
Shown(ds) == Reveal(sealed, ds)

\* Choices of claims by name.
Few == {s \in SUBSET (Known \cup {"nosuch"}) : Cardinality(s) <= (IF Lean THEN 1 ELSE 2) \/ s = Known}
Choices == {[all |-> TRUE, may |-> {}, must |-> {}]}
           \cup {[all |-> FALSE, may |-> s, must |-> {}] : s \in Few}
           \cup {[all |-> FALSE, may |-> {}, must |-> s] : s \in Few \ {{}}}
           \cup {[all |-> FALSE, may |-> s, must |-> {n}] : s \in Few \ {{}}, n \in IF Lean THEN {} ELSE Known}
Possible(c) == \A n \in c.must : Named(have, {n}) # {}
Picked(c) == IF c.all THEN have ELSE Named(have, c.may \cup c.must)

\* Subsets of the disclosures at hand: none, one, all but one, all that are for something seen.
Subsets == IF Cardinality(have) <= (IF Lean THEN 2 ELSE 4) THEN SUBSET have
           ELSE {{}, have} \cup {{d} : d \in have} \cup {have \ {d} : d \in have}

Step(op, arg, ok) == [op |-> op, arg |-> arg, ok |-> ok]
\* What a step leaves in one's hands goes into the log, with what is seen of it.
Logged(op, arg, ok) == log' = Append(log, [op |-> op, arg |-> arg, ok |-> ok, at |-> at', have |-> have', bound |-> bound',
                                          closed |-> Closed(have'), shown |-> Shown(have')])
None == [all |-> FALSE, may |-> {}, must |-> {}]

Init == /\ \E s \in DOMAIN Shapes, m \in {1, 2} :
             \/ \E o \in Options(Shapes[s]) : case = [shape |-> s, model |-> m, opt |-> o, direct |-> FALSE]
             \/ \E v \in {0, 5} : case = [shape |-> s, model |-> m, opt |-> [Plainly EXCEPT !.v = v], direct |-> TRUE]
        /\ sealed = Seal(Shapes[case.shape], SealAs(case.opt))
        /\ at = "plain" /\ have = {} /\ bound = 0 /\ log = <<>>

\* ---- issuing
Make == /\ at = "plain" /\ ~case.direct
        /\ have' = All /\ at' = "issued" /\ bound' = 0
        /\ Logged("make", None, TRUE)
Direct == /\ at = "plain" /\ case.direct /\ All # {}
          /\ \E c \in Choices, b \in BOOLEAN :
               LET got == IF c.all THEN All ELSE Named(All, c.may \cup c.must)
                   ok == \A n \in c.must : Named(All, {n}) # {} IN
               /\ have' = IF ok THEN got ELSE {}
               /\ at' = IF ok THEN "wire" ELSE "end"
               /\ bound' = IF ok /\ b THEN Len(log) + 1 ELSE 0
               /\ Logged(IF b THEN "directbound" ELSE "direct", c, ok)

\* ---- on the wire
OnWire == at \in {"issued", "wire"}
Parse == /\ OnWire
         /\ at' = IF Closed(have) THEN "object" ELSE "end"
         /\ UNCHANGED <<have, bound>>
         /\ Logged("parse", None, Closed(have))
\* A holder presents some of what was issued.
Hold == /\ at = "issued" /\ All # {}
        /\ \E s \in Subsets, b \in BOOLEAN :
             /\ have' = s /\ at' = "wire" /\ bound' = IF b THEN Len(log) + 1 ELSE 0
             /\ Logged(IF b THEN "holdbound" ELSE "hold", [all |-> FALSE, may |-> s, must |-> {}], TRUE)

\* ---- in hand
Marshal == /\ at = "object"
           /\ \E c \in Choices, b \in BOOLEAN :
                /\ have' = IF Possible(c) THEN Picked(c) ELSE have
                /\ at' = IF Possible(c) THEN "wire" ELSE "object"
                /\ bound' = IF Possible(c) /\ b THEN Len(log) + 1 ELSE bound
                /\ Logged(IF b THEN "marshalbound" ELSE "marshal", c, Possible(c))
Words == /\ at = "object"
         /\ \E w \in {"string", "json", "universal"} :
              /\ at' = "wire" /\ UNCHANGED <<have, bound>>
              /\ Logged(w, None, TRUE)
Restrict1 == /\ at = "object"
             /\ \E s \in Subsets :
                  /\ have' = s /\ UNCHANGED <<at, bound>>
                  /\ Logged("restrict", [all |-> FALSE, may |-> s, must |-> {}], TRUE)
\* What is carried in a presentation is parsed there, and so must verify.
Carry == /\ at = "object"
         /\ \E w \in {"vp", "vpjwt"} :
              /\ at' = IF Closed(have) THEN "object" ELSE "end"
              /\ UNCHANGED <<have, bound>>
              /\ Logged(w, None, Closed(have))
\* Displaying shows, and keeps, nothing else; the display is judged for itself.
Display == /\ at = "object"
           /\ \E c \in {x \in Choices : x.must = {}}, w \in {"display", "displaymap"} :
                /\ UNCHANGED <<at, have, bound>>
                /\ log' = Append(log, [op |-> w, arg |-> c, ok |-> TRUE, at |-> at, have |-> have, bound |-> bound,
                                       closed |-> Closed(have), shown |-> Shown(Picked(c))])

Next == Len(log) < MaxSteps /\ UNCHANGED <<case, sealed>> /\ (Make \/ Direct \/ Parse \/ Hold \/ Marshal \/ Words \/ Restrict1 \/ Carry \/ Display)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* Nothing comes back once it was dropped.
NoReturn == [][(at # "plain") => have' \subseteq have]_vars
\* What is seen is the original without the hidden claims that were not kept, as far as these are for something seen.
Exact == Closed(have) /\ at # "plain" => Same(Shown(have), Restrict(Shapes[case.shape], "", All \ have, All))
\* What can be seen of any set of disclosures is what can be seen of those that are for something seen.
Orphans == Same(Shown(have), Shown(Reached(sealed, have)))
\* A claim in clear is always seen.
Clear == at = "plain" \/ ClearLeaves(sealed) \subseteq ClearLeaves(Plain(Shown(have)))

Emit == (at = "end" \/ Len(log) = MaxSteps) =>
          PrintT("@@" \o ToJson([case |-> case, subject |-> Shapes[case.shape], names |-> Names(sealed), log |-> log,
                                 expect |-> IF \A i \in 1..Len(log) : log[i].ok THEN "done" ELSE "refused"]))
=============================================================================
