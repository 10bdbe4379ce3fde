------------------------------- MODULE PexReq -------------------------------
(* Submission requirements: which sets of input descriptors a presentation    *)
(* may answer.  Four descriptors, d1..d4, belong to groups; a definition has  *)
(* up to two requirements that pick from groups or from nested requirements.  *)
(* The wallet holds credentials for the descriptors in sat and only for them. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Groupings, Sats, Wallets, Forms
VARIABLES form, groups, top, sat, wallet

D == 1..4
\* groups of d1..d4
Grouping(g) ==
  CASE g = "AABB" -> <<{"A"}, {"A"}, {"B"}, {"B"}>>
    [] g = "ABAB" -> <<{"A"}, {"B"}, {"A"}, {"B"}>>
    [] g = "AAAA" -> <<{"A"}, {"A"}, {"A"}, {"A"}>>
    [] g = "AXBB" -> <<{"A"}, {"A", "B"}, {"B"}, {"B"}>>
    [] g = "BXXA" -> <<{"B"}, {"A", "B"}, {"A", "B"}, {"A"}>>
    [] g = "A-AB" -> <<{"A"}, {}, {"A"}, {"B"}>>
    [] g = "BAAA" -> <<{"B"}, {"A"}, {"A"}, {"A"}>>
R(rule, count, min, max) == [rule |-> rule, count |-> count, min |-> min, max |-> max]
AllRules == {R("all", 0, 0, 0), R("all", 1, 0, 0), R("pick", 0, 0, 0), R("pick", 1, 0, 0), R("pick", 2, 0, 0), R("pick", 3, 0, 0),
             R("pick", 0, 1, 0), R("pick", 0, 2, 0), R("pick", 0, 3, 0), R("pick", 0, 0, 1), R("pick", 0, 0, 2), R("pick", 0, 1, 2),
             R("pick", 0, 2, 3), R("pick", 0, 1, 1), R("pick", 0, 3, 2), R("pick", 0, 0, 9), R("pick", 5, 0, 0)}
FewRules == {R("all", 0, 0, 0), R("pick", 1, 0, 0), R("pick", 2, 0, 0), R("pick", 0, 1, 0), R("pick", 0, 0, 1)}
NestRules == {R("all", 0, 0, 0), R("pick", 1, 0, 0), R("pick", 2, 0, 0), R("pick", 0, 1, 0), R("pick", 0, 0, 1)}
Leaf(r, g) == [rule |-> r.rule, count |-> r.count, min |-> r.min, max |-> r.max, from |-> g, nested |-> <<>>]
Nest(r, s) == [rule |-> r.rule, count |-> r.count, min |-> r.min, max |-> r.max, from |-> "", nested |-> s]
Leaves == {Leaf(r, g) : r \in AllRules, g \in {"A", "B", "C"}}
FewLeaves == {Leaf(r, g) : r \in FewRules, g \in {"A", "B"}}
TwoLeaves == {<<a, b>> : a \in FewLeaves, b \in FewLeaves}
Nested == {Nest(r, s) : r \in NestRules, s \in TwoLeaves}
Tops(f) ==
  CASE f = "none" -> {<<>>}
    [] f = "leaf" -> {<<l>> : l \in Leaves}
    [] f = "two" -> TwoLeaves
    [] f = "nested" -> {<<n>> : n \in Nested}
    [] f = "mixed" -> {<<Leaf(a, g), Nest(r, <<Leaf(b, "A"), Leaf(b2, "B")>>)>> :
                         a \in {R("pick", 1, 0, 0), R("all", 0, 0, 0)}, g \in {"A", "B"}, r \in NestRules, b \in FewRules, b2 \in FewRules}
    [] f = "deep" -> {<<Nest(r, <<Leaf(b, "A"), Nest(r2, <<Leaf(b2, "B"), Leaf(b3, "A")>>)>>)>> :
                         r \in {R("all", 0, 0, 0), R("pick", 1, 0, 0)}, r2 \in NestRules, b \in FewRules, b2 \in FewRules, b3 \in {R("all", 0, 0, 0), R("pick", 0, 1, 0)}}
    [] f = "three" -> {<<Nest(r, <<Leaf(a, "A"), Leaf(b, "B"), Leaf(a2, "A")>>)>> : r \in NestRules \cup {R("pick", 0, 2, 0), R("pick", 0, 1, 2)}, a \in FewRules, b \in FewRules, a2 \in FewRules}

Init == /\ form \in Forms /\ groups \in Groupings /\ top \in Tops(form)
        /\ sat \in Sats /\ wallet \in Wallets
Next == UNCHANGED <<form, groups, top, sat, wallet>>
Spec == Init /\ [][Next]_<<form, groups, top, sat, wallet>>

Members(g) == {d \in D : g \in Grouping(groups)[d]}
Fits(r, n, total) ==
  IF r.rule = "all" THEN n = total
  ELSE /\ (r.count > 0 => n = r.count)
       /\ (r.min > 0 => n >= r.min)
       /\ (r.max > 0 => n <= r.max)
RECURSIVE Met(_, _)
Met(r, S) ==
  IF r.nested = <<>> THEN Fits(r, Cardinality(Members(r.from) \cap S), Cardinality(Members(r.from)))
  ELSE Fits(r, Cardinality({i \in DOMAIN r.nested : Met(r.nested[i], S)}), Len(r.nested))
RECURSIVE Known(_)
Known(r) == IF r.nested = <<>> THEN Members(r.from) # {} ELSE \A i \in DOMAIN r.nested : Known(r.nested[i])
Allowed(S) == IF top = <<>> THEN S = D ELSE \A i \in DOMAIN top : Met(top[i], S)
Valid == \A i \in DOMAIN top : Known(top[i])
\* descriptors that no requirement asks for are not answered
RECURSIVE Asked(_)
Asked(r) == IF r.nested = <<>> THEN Members(r.from) ELSE UNION {Asked(r.nested[i]) : i \in DOMAIN r.nested}
Used == IF top = <<>> THEN D ELSE UNION {Asked(top[i]) : i \in DOMAIN top}
Solutions == {S \in SUBSET (sat \cap Used) : S # {} /\ Allowed(S)}
Expect == IF ~Valid THEN "reject" ELSE IF Solutions # {} THEN "ok" ELSE IF Allowed({}) THEN "any" ELSE "reject"

\* more credentials never make a monotone definition unsatisfiable
RECURSIVE Monotone(_)
Monotone(r) == /\ r.rule = "all" \/ (r.count = 0 /\ r.max = 0)
               /\ \A i \in DOMAIN r.nested : Monotone(r.nested[i])
MonotoneOk == (Valid /\ Solutions # {} /\ \A i \in DOMAIN top : Monotone(top[i])) => Allowed(D)
NothingFromNothing == sat = {} => Solutions = {}
NoneMeansAll == top = <<>> => (Expect = "ok" <=> sat = D)

Emit == Expect # "any" => PrintT("@@" \o ToJson([expect |-> Expect, form |-> form, groups |-> Grouping(groups), top |-> top, sat |-> sat, wallet |-> wallet, solutions |-> Solutions]))
=============================================================================
