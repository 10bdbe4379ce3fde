----------------------------- MODULE SDJwtTree -----------------------------
(* Claim trees, selectively disclosable ("sealed") trees, and the two ways of *)
(* describing disclosure: operationally (the verifier follows digests) and    *)
(* declaratively (the original tree restricted to what was disclosed).        *)
(*                                                                            *)
(* A tree node is                                                             *)
(*   [k |-> "p", id |-> n]                 leaf (unique id)                   *)
(*   [k |-> "null"]                        JSON null                          *)
(*   [k |-> "o", ch |-> <<[n, v]..>>]      object                             *)
(*   [k |-> "a", el |-> <<node..>>]        array                              *)
(* A sealed tree adds to objects  sd : sequence of hidden members             *)
(*   [d |-> digest id, n |-> claim name, v |-> sealed node]                   *)
(* and to arrays hidden elements [k |-> "h", d |-> digest id, v |-> node].    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

P(i)    == [k |-> "p", id |-> i]
Null    == [k |-> "null"]
O(ch)   == [k |-> "o", ch |-> ch]
A(el)   == [k |-> "a", el |-> el]
M(n, v) == [n |-> n, v |-> v]

SO(ch, sd) == [k |-> "o", ch |-> ch, sd |-> sd]
H(d, v)    == [k |-> "h", d |-> d, v |-> v]
S(d, n, v) == [d |-> d, n |-> n, v |-> v]

Sub(path, n) == IF path = "" THEN n ELSE path \o "." \o n
Idx(path, i) == path \o "[" \o ToString(i - 1) \o "]"

\* a plain tree as a sealed tree with nothing hidden
RECURSIVE Plain(_)
Plain(t) == CASE t.k = "o" -> SO([i \in 1..Len(t.ch) |-> M(t.ch[i].n, Plain(t.ch[i].v))], << >>)
              [] t.k = "a" -> A([i \in 1..Len(t.el) |-> Plain(t.el[i])])
              [] OTHER -> t

RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))
Range(s) == {s[i] : i \in 1..Len(s)}

\* All digests below a sealed node (whether reachable through disclosures or not)
RECURSIVE Digests(_)
Digests(t) ==
  CASE t.k = "o" -> UNION ({Digests(t.ch[i].v) : i \in 1..Len(t.ch)}
                      \cup {{t.sd[i].d} \cup Digests(t.sd[i].v) : i \in 1..Len(t.sd)})
    [] t.k = "a" -> UNION {Digests(t.el[i]) : i \in 1..Len(t.el)}
    [] t.k = "h" -> {t.d} \cup Digests(t.v)
    [] OTHER -> {}

\* Digests the verifier reaches when it holds the disclosures in ds
RECURSIVE Reached(_, _)
Reached(t, ds) ==
  CASE t.k = "o" -> UNION ({Reached(t.ch[i].v, ds) : i \in 1..Len(t.ch)}
                      \cup {IF t.sd[i].d \in ds THEN {t.sd[i].d} \cup Reached(t.sd[i].v, ds) ELSE {} : i \in 1..Len(t.sd)})
    [] t.k = "a" -> UNION {Reached(t.el[i], ds) : i \in 1..Len(t.el)}
    [] t.k = "h" -> IF t.d \in ds THEN {t.d} \cup Reached(t.v, ds) ELSE {}
    [] OTHER -> {}

\* The claims the verifier computes
RECURSIVE Reveal(_, _)
Reveal(t, ds) ==
  CASE t.k = "o" -> O(Flat([i \in 1..Len(t.ch) |->
                            LET r == Reveal(t.ch[i].v, ds) IN
                            \* deliberate (pinned by the repository's tests): an array in clear whose elements are
                            \* all hidden and undisclosed is left out; a disclosed one is shown empty
                            IF r.k = "a" /\ r.el = << >> /\ t.ch[i].v.el # << >> THEN << >> ELSE <<M(t.ch[i].n, r)>>])
                       \o Flat([i \in 1..Len(t.sd) |-> IF t.sd[i].d \in ds THEN <<M(t.sd[i].n, Reveal(t.sd[i].v, ds))>> ELSE << >>]))
    [] t.k = "a" -> A(Flat([i \in 1..Len(t.el) |->
                       IF t.el[i].k = "h" THEN (IF t.el[i].d \in ds THEN <<Reveal(t.el[i].v, ds)>> ELSE << >>)
                       ELSE <<Reveal(t.el[i], ds)>>]))
    [] OTHER -> t

\* Leaf ids that appear in clear in the signed payload
RECURSIVE ClearLeaves(_)
ClearLeaves(t) ==
  CASE t.k = "o" -> UNION {ClearLeaves(t.ch[i].v) : i \in 1..Len(t.ch)}
    [] t.k = "a" -> UNION {ClearLeaves(t.el[i]) : i \in 1..Len(t.el)}
    [] t.k = "p" -> {t.id}
    [] OTHER -> {}

\* Hidden positions with the hidden positions above them: set of [d, above]
RECURSIVE Hidden(_, _)
Hidden(t, above) ==
  CASE t.k = "o" -> UNION ({Hidden(t.ch[i].v, above) : i \in 1..Len(t.ch)}
                      \cup {{[d |-> t.sd[i].d, above |-> above]} \cup Hidden(t.sd[i].v, above \cup {t.sd[i].d}) : i \in 1..Len(t.sd)})
    [] t.k = "a" -> UNION {Hidden(t.el[i], above) : i \in 1..Len(t.el)}
    [] t.k = "h" -> {[d |-> t.d, above |-> above]} \cup Hidden(t.v, above \cup {t.d})
    [] OTHER -> {}

\* Declarative side: original tree, set of paths that are hidden and not disclosed (or below one such)
AllGone(v, q, gone) == v.k = "a" /\ v.el # << >> /\ \A i \in 1..Len(v.el) : Idx(q, i) \in gone
RECURSIVE Restrict(_, _, _, _)
Restrict(t, path, gone, hid) ==
  CASE t.k = "o" -> O(Flat([i \in 1..Len(t.ch) |->
                       LET q == Sub(path, t.ch[i].n) IN
                       IF q \in gone \/ (q \notin hid /\ AllGone(t.ch[i].v, q, gone)) THEN << >>
                       ELSE <<M(t.ch[i].n, Restrict(t.ch[i].v, q, gone, hid))>>]))
    [] t.k = "a" -> A(Flat([i \in 1..Len(t.el) |->
                       IF Idx(path, i) \in gone THEN << >> ELSE <<Restrict(t.el[i], Idx(path, i), gone, hid)>>]))
    [] OTHER -> t

\* Equality of trees up to the order of object members
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a.k = b.k
  /\ CASE a.k = "o" -> /\ Len(a.ch) = Len(b.ch)
                       /\ \A i \in 1..Len(a.ch) : \E j \in 1..Len(b.ch) :
                             a.ch[i].n = b.ch[j].n /\ Same(a.ch[i].v, b.ch[j].v)
       [] a.k = "a" -> Len(a.el) = Len(b.el) /\ \A i \in 1..Len(a.el) : Same(a.el[i], b.el[i])
       [] OTHER -> a = b

\* candidate paths inside a subtree, for the path-valued options
RECURSIVE Paths(_, _)
Paths(t, p) == {p} \cup CASE t.k = "o" -> UNION {Paths(t.ch[i].v, Sub(p, t.ch[i].n)) : i \in 1..Len(t.ch)}
                          [] t.k = "a" -> {Idx(p, i) : i \in 1..Len(t.el)}
                          [] OTHER -> {}
RECURSIVE ObjPaths(_, _)
ObjPaths(t, p) == CASE t.k = "o" -> {p} \cup UNION {ObjPaths(t.ch[i].v, Sub(p, t.ch[i].n)) : i \in 1..Len(t.ch)}
                    [] t.k = "a" -> {p}
                    [] OTHER -> {}
Upto1(X) == {{}} \cup {{x} : x \in X}

ver(o) == o.v
(* ---------------- issuance, version 5 ---------------- *)
RECURSIVE Seal5(_, _, _, _)
SealArr5(t, p, o) == [k |-> "a", el |-> [i \in 1..Len(t.el) |->
                         IF Idx(p, i) \in o.ign THEN Plain(t.el[i]) ELSE H(Idx(p, i), Plain(t.el[i]))]]
Seal5(t, p, o, prims) ==   \* t is an object; prims: primitive members stay in clear
  LET part(i) ==
        LET n == t.ch[i].n  v == t.ch[i].v  q == Sub(p, n)
            clear(x) == [ch |-> <<M(n, x)>>, sd |-> << >>]
            hide(x)  == [ch |-> << >>, sd |-> <<S(q, n, x)>>]
        IN CASE v.k = "o" ->
                  IF q \in o.ign THEN clear(Plain(v))
                  ELSE IF q \in o.rec THEN (IF q \in o.alw THEN clear(Seal5(v, q, o, FALSE)) ELSE hide(Seal5(v, q, o, FALSE)))
                  ELSE IF q \in o.alw \/ o.struct THEN clear(Seal5(v, q, o, FALSE))
                  ELSE hide(Seal5(v, q, o, TRUE))
             [] v.k = "a" ->
                  IF q \in o.ign THEN clear(Plain(v))
                  ELSE IF q \in o.alw \/ o.struct THEN clear(SealArr5(v, q, o))
                  ELSE hide(SealArr5(v, q, o))
             [] OTHER -> IF q \in o.ign \/ prims THEN clear(v) ELSE hide(v)
      ps == [i \in 1..Len(t.ch) |-> part(i)]
  IN SO(Flat([i \in 1..Len(t.ch) |-> ps[i].ch]), Flat([i \in 1..Len(t.ch) |-> ps[i].sd]))
(* ---------------- issuance, version 2 ---------------- *)
RECURSIVE Seal2(_, _, _)
Seal2(t, p, o) ==
  LET part(i) ==
        LET n == t.ch[i].n  v == t.ch[i].v  q == Sub(p, n) IN
        IF v.k = "o" /\ o.struct THEN [ch |-> <<M(n, Seal2(v, q, o))>>, sd |-> << >>]
        ELSE IF q \in o.ign THEN [ch |-> <<M(n, Plain(v))>>, sd |-> << >>]
        ELSE [ch |-> << >>, sd |-> <<S(q, n, Plain(v))>>]
      ps == [i \in 1..Len(t.ch) |-> part(i)]
  IN SO(Flat([i \in 1..Len(t.ch) |-> ps[i].ch]), Flat([i \in 1..Len(t.ch) |-> ps[i].sd]))

Seal(t, o) == IF o.v = 5 THEN Seal5(t, "", o, FALSE) ELSE Seal2(t, "", o)
=============================================================================
