------------------------------- MODULE SDJwt -------------------------------
(* Issue -> (holder receives) -> present a subset -> verify, for SD-JWT.      *)
(* Issuance follows the documented option semantics of both format versions;  *)
(* the digest of a hidden claim is named by its path.  Properties:            *)
(*   Exact     what the verifier computes by following digests is the         *)
(*             original tree restricted to the disclosed claims               *)
(*   NoClear   nothing below a hidden claim appears in the signed payload     *)
(*   Orphans   presenting a nested disclosure without its parents is rejected *)
EXTENDS SDJwtTree, Json
CONSTANTS Slots,      \* number of top level claims (1..3)
          MaxHidden,  \* only claim sets with at most this many disclosures
          Menu        \* "small" or "full" menu of subtrees
VARIABLES pc, cs, opt, sealed, chosen, out
vars == <<pc, cs, opt, sealed, chosen, out>>

SlotName == <<"a", "b", "c">>
\* menu of subtrees for slot s (leaf ids are unique per slot)
Sub0(s) == {P(10*s), O(<<M("x", P(10*s))>>), O(<<M("x", P(10*s)), M("y", O(<<M("z", P(10*s+1))>>))>>),
            A(<<P(10*s), P(10*s+1)>>), A(<<O(<<M("x", P(10*s))>>), P(10*s+1)>>)}
Sub1(s) == Sub0(s) \cup {Null, O(<< >>), A(<< >>), O(<<M("x", P(10*s)), M("y", P(10*s+1))>>),
            O(<<M("x", A(<<P(10*s), P(10*s+1)>>)), M("y", P(10*s+2))>>), A(<<P(10*s)>>), A(<<Null, P(10*s)>>),
            A(<<A(<<P(10*s), P(10*s+1)>>), P(10*s+2)>>),
            O(<<M("x", O(<<M("y", A(<<P(10*s)>>)), M("z", P(10*s+1))>>))>>), O(<<M("x", Null), M("y", P(10*s))>>)}
\* more elements than a digit can count
Many(s, n) == [i \in 1..n |-> P(10*s + i)]
Letters == <<"m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w">>
Sub2(s) == {A(Many(s, 12)), O(<<M("x", A(Many(s, 11)))>>), O([i \in 1..11 |-> M(Letters[i], P(10*s + i))])}
Subs(s) == CASE Menu = "small" -> Sub0(s) [] Menu = "long" -> Sub2(s) [] OTHER -> Sub1(s)

(* ---------------- behaviour ---------------- *)
None == [k |-> "none"]
Init == pc = "choose" /\ cs = None /\ opt = None /\ sealed = None /\ chosen = {} /\ out = None

RECURSIVE Trees(_)
Trees(s) == IF s = 0 THEN {<< >>} ELSE {Append(t, M(SlotName[s], v)) : t \in Trees(s - 1), v \in Subs(s)}

Choose == /\ pc = "choose"
          /\ \E t \in Trees(Slots) : cs' = O(t)
          /\ pc' = "options" /\ UNCHANGED <<opt, sealed, chosen, out>>
Options == /\ pc = "options"
           /\ LET ps == Paths(cs, "") \ {""}  os == ObjPaths(cs, "") \ {""} IN
              \E v \in {2, 5}, st \in BOOLEAN, dec \in BOOLEAN, ig \in Upto1(ps),
                 al \in (IF Slots > 1 /\ Menu = "full" THEN Upto1(os) ELSE Upto1(os)), re \in Upto1(os) :
                /\ (v = 2 => al = {} /\ re = {})
                /\ (Menu = "long" => ~dec /\ Cardinality(ig) + Cardinality(al) + Cardinality(re) <= 1)
                /\ (dec => ig = {} /\ al = {})       \* decoys are orthogonal to paths: sampled with few options
                /\ opt' = [v |-> v, struct |-> st, decoy |-> dec, ign |-> ig, alw |-> al, rec |-> re]
           /\ pc' = "issue" /\ UNCHANGED <<cs, sealed, chosen, out>>
Issue == /\ pc = "issue"
         /\ sealed' = Seal(cs, opt)
         /\ Cardinality(Digests(sealed')) <= MaxHidden
         /\ pc' = "present" /\ UNCHANGED <<cs, opt, chosen, out>>
\* every choice, or of many: none, all, one, all but one
Choices(D) == IF Cardinality(D) <= 5 THEN SUBSET D ELSE {{}, D} \cup {{d} : d \in D} \cup {D \ {d} : d \in D}
Present == /\ pc = "present"
           /\ \E ds \in Choices(Digests(sealed)) : chosen' = ds
           /\ pc' = "verify" /\ UNCHANGED <<cs, opt, sealed, out>>
Verify == /\ pc = "verify"
          /\ out' = IF Reached(sealed, chosen) = chosen THEN [k |-> "ok", t |-> Reveal(sealed, chosen)] ELSE [k |-> "reject"]
          /\ pc' = "done" /\ UNCHANGED <<cs, opt, sealed, chosen>>
Next == Choose \/ Options \/ Issue \/ Present \/ Verify
Spec == Init /\ [][Next]_vars

Orphan(d) == \E h \in Hidden(sealed, {}) : h.d = d /\ ~(h.above \subseteq chosen)
Orphans == pc = "done" => ((out.k = "reject") <=> \E d \in chosen : Orphan(d))
Exact == (pc = "done" /\ out.k = "ok") => Same(out.t, Restrict(cs, "", Digests(sealed) \ chosen, Digests(sealed)))
\* every leaf in clear in the payload is below no hidden position, every other leaf is below one
RECURSIVE LeavesBelow(_, _, _)
LeavesBelow(t, p, hid) ==
  CASE t.k = "o" -> UNION {IF Sub(p, t.ch[i].n) \in hid THEN {} ELSE LeavesBelow(t.ch[i].v, Sub(p, t.ch[i].n), hid) : i \in 1..Len(t.ch)}
    [] t.k = "a" -> UNION {IF Idx(p, i) \in hid THEN {} ELSE LeavesBelow(t.el[i], Idx(p, i), hid) : i \in 1..Len(t.el)}
    [] t.k = "p" -> {t.id}
    [] OTHER -> {}
NoClear == pc = "present" => ClearLeaves(sealed) = LeavesBelow(cs, "", Digests(sealed))
\* version 2 issues without structure: every top level claim not excluded is hidden
Default2 == (pc = "present" /\ opt.v = 2 /\ ~opt.struct) =>
              Digests(sealed) = {cs.ch[i].n : i \in 1..Len(cs.ch)} \ opt.ign
Emit == pc = "done" => PrintT("@@" \o ToJson([expect |-> out.k, cs |-> cs, opt |-> opt, hidden |-> Digests(sealed),
            clear |-> ClearLeaves(sealed), base |-> Reveal(sealed, {}), chosen |-> chosen, out |-> IF out.k = "ok" THEN out.t ELSE [k |-> "none"]]))
=============================================================================
