------------------------------ MODULE SDVerify ------------------------------
(* What a verifier of SD-JWT must accept, for tokens and presentations that   *)
(* an attacker (a holder, a third party, or a misbehaving issuer) has tampered*)
(* with.  Digests are symbolic names; changing a disclosure changes its name. *)
(*                                                                            *)
(* A token is [alg, root, ds]: the signed payload and the list of disclosures *)
(* presented.  Objects carry sd (digests), arrays may hold [k |-> "h", d].    *)
(* A disclosure is [d, kind, ar, n, v]: digest name, "wf" or a kind of        *)
(* malformation, number of elements, claim name, value.                       *)
(*                                                                            *)
(*   NoForged   accepted claims never contain anything the issuer did not sign*)
(*   AllUsed    acceptance means that every presented disclosure was used     *)
(*   Honest     untampered presentations of a parent-closed subset succeed    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxAttacks, Templates
VARIABLES pc, tpl, tok, atk, out
vars == <<pc, tpl, tok, atk, out>>

P(i) == [k |-> "p", id |-> i]
O(ch, sd) == [k |-> "o", ch |-> ch, sd |-> sd, sdk |-> "list"]
A(el) == [k |-> "a", el |-> el]
H(d) == [k |-> "h", d |-> d]
M(n, v) == [n |-> n, v |-> v]
D3(d, n, v) == [d |-> d, kind |-> "wf", ar |-> 3, n |-> n, v |-> v]
D2(d, v) == [d |-> d, kind |-> "wf", ar |-> 2, n |-> "", v |-> v]

Base(t) ==
  CASE t = 1 -> [root |-> O(<<M("c", P(1))>>, <<"d1", "d2">>), ds |-> <<D3("d1", "a", P(2)), D3("d2", "b", P(3))>>]
    [] t = 2 -> [root |-> O(<< >>, <<"d1">>), ds |-> <<D3("d1", "a", O(<<M("x", P(1))>>, <<"d2">>)), D3("d2", "y", P(2))>>]
    [] t = 3 -> [root |-> O(<<M("c", A(<<H("d1"), P(1), H("d2")>>))>>, << >>),
                 ds |-> <<D2("d1", P(2)), D2("d2", O(<<M("x", P(3))>>, <<"d3">>)), D3("d3", "z", P(4))>>]
    [] t = 4 -> [root |-> O(<<M("c", O(<<M("x", P(1))>>, <<"d1">>))>>, <<"d2">>),
                 ds |-> <<D3("d1", "y", P(2)), D3("d2", "b", A(<<H("d3"), P(3)>>)), D2("d3", P(4))>>]
    [] t = 5 -> [root |-> O(<<M("c", A(<<O(<< >>, <<"d1">>), A(<<H("d2")>>)>>))>>, << >>),
                 ds |-> <<D3("d1", "x", P(1)), D2("d2", O(<<M("y", P(2))>>, << >>))>>]
    [] t = 6 -> [root |-> O(<<M("c", P(1)), M("x", O(<<M("y", O(<< >>, <<"d1">>))>>, << >>))>>, << >>),
                 ds |-> <<D3("d1", "a", P(2))>>]

(* ---------------- positions and edits of payload trees ---------------- *)
RECURSIVE ObjPos(_, _)
ObjPos(t, p) == CASE t.k = "o" -> {p} \cup UNION {ObjPos(t.ch[i].v, Append(p, i)) : i \in 1..Len(t.ch)}
                  [] t.k = "a" -> UNION {ObjPos(t.el[i], Append(p, i)) : i \in 1..Len(t.el)}
                  [] OTHER -> {}
RECURSIVE ArrPos(_, _)
ArrPos(t, p) == CASE t.k = "o" -> UNION {ArrPos(t.ch[i].v, Append(p, i)) : i \in 1..Len(t.ch)}
                  [] t.k = "a" -> {p} \cup UNION {ArrPos(t.el[i], Append(p, i)) : i \in 1..Len(t.el)}
                  [] OTHER -> {}
RECURSIVE At(_, _)
At(t, p) == IF p = << >> THEN t ELSE At(IF t.k = "o" THEN t.ch[Head(p)].v ELSE t.el[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(t, p, x) == IF p = << >> THEN x
                ELSE IF t.k = "o" THEN [t EXCEPT !.ch[Head(p)].v = Put(@, Tail(p), x)]
                ELSE [t EXCEPT !.el[Head(p)] = Put(@, Tail(p), x)]
Without(s, d) == SelectSeq(s, LAMBDA x : x # d)
RECURSIVE Purge(_, _)   \* remove digest d everywhere
Purge(t, d) == CASE t.k = "o" -> [t EXCEPT !.ch = [i \in 1..Len(t.ch) |-> M(t.ch[i].n, Purge(t.ch[i].v, d))], !.sd = Without(@, d)]
                 [] t.k = "a" -> A(LET el == SelectSeq(t.el, LAMBDA x : ~(x.k = "h" /\ x.d = d)) IN [i \in 1..Len(el) |-> Purge(el[i], d)])
                 [] OTHER -> t

\* all places of a token: the payload (0) and the values of its disclosures (i)
Tree(tk, i) == IF i = 0 THEN tk.root ELSE tk.ds[i].v
WithTree(tk, i, x) == IF i = 0 THEN [tk EXCEPT !.root = x] ELSE [tk EXCEPT !.ds[i].v = x]
Places(tk) == {0} \cup {i \in 1..Len(tk.ds) : tk.ds[i].kind = "wf"}
ObjPlaces(tk) == UNION {{<<i, p>> : p \in ObjPos(Tree(tk, i), << >>)} : i \in Places(tk)}
ArrPlaces(tk) == UNION {{<<i, p>> : p \in ArrPos(Tree(tk, i), << >>)} : i \in Places(tk)}
AddSd(tk, pl, d) == LET o == At(Tree(tk, pl[1]), pl[2]) IN
                    WithTree(tk, pl[1], Put(Tree(tk, pl[1]), pl[2], [o EXCEPT !.sd = Append(@, d)]))
AddEl(tk, pl, d) == LET a == At(Tree(tk, pl[1]), pl[2]) IN
                    WithTree(tk, pl[1], Put(Tree(tk, pl[1]), pl[2], [a EXCEPT !.el = Append(@, H(d))]))
PurgeAll(tk, d) == [tk EXCEPT !.root = Purge(@, d), !.ds = [i \in 1..Len(tk.ds) |-> [tk.ds[i] EXCEPT !.v = Purge(@, d)]]]

(* ---------------- the verifier ---------------- *)
BadKinds == {"b64", "json", "object", "empty", "none", "ar1", "ar4", "salt", "name", "std64"}
Find(ds, d) == CHOOSE i \in 1..Len(ds) : ds[i].d = d
Has(ds, d) == \E i \in 1..Len(ds) : ds[i].d = d
RECURSIVE Flat(_)
Flat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Flat(Tail(ss))

\* digests met while following disclosures, in order, with repetitions
RECURSIVE Met(_, _)
Met(t, ds) ==
  CASE t.k = "o" -> Flat([i \in 1..Len(t.sd) |-> <<t.sd[i]>> \o (IF Has(ds, t.sd[i]) THEN Met(ds[Find(ds, t.sd[i])].v, ds) ELSE << >>)])
                    \o Flat([i \in 1..Len(t.ch) |-> Met(t.ch[i].v, ds)])
    [] t.k = "a" -> Flat([i \in 1..Len(t.el) |-> Met(t.el[i], ds)])
    [] t.k = "h" -> <<t.d>> \o (IF Has(ds, t.d) THEN Met(ds[Find(ds, t.d)].v, ds) ELSE << >>)
    [] OTHER -> << >>
\* misuse below t: wrong arity for the place, colliding or unusable members
RECURSIVE Wrong(_, _)
Wrong(t, ds) ==
  CASE t.k = "o" ->
         LET shown == SelectSeq(t.sd, LAMBDA d : Has(ds, d))
             nm(i) == ds[Find(ds, shown[i])].n
         IN \/ t.sdk # "list"
            \/ \E i \in 1..Len(shown) : ds[Find(ds, shown[i])].ar # 3 \/ Wrong(ds[Find(ds, shown[i])].v, ds)
            \/ \E i, j \in 1..Len(shown) : i # j /\ nm(i) = nm(j)
            \/ \E i \in 1..Len(shown), j \in 1..Len(t.ch) : nm(i) = t.ch[j].n
            \/ \E i \in 1..Len(t.ch) : Wrong(t.ch[i].v, ds)
    [] t.k = "a" -> \E i \in 1..Len(t.el) : Wrong(t.el[i], ds)
    [] t.k = "h" -> Has(ds, t.d) /\ (ds[Find(ds, t.d)].ar # 2 \/ Wrong(ds[Find(ds, t.d)].v, ds))
    [] OTHER -> FALSE
RECURSIVE Show(_, _)
Show(t, ds) ==
  CASE t.k = "o" -> [k |-> "o", ch |->
         Flat([i \in 1..Len(t.ch) |-> LET r == Show(t.ch[i].v, ds) IN
                 IF r.k = "a" /\ r.el = << >> /\ t.ch[i].v.el # << >> THEN << >> ELSE <<M(t.ch[i].n, r)>>])
         \o Flat([i \in 1..Len(t.sd) |-> IF Has(ds, t.sd[i]) THEN LET x == ds[Find(ds, t.sd[i])] IN <<M(x.n, Show(x.v, ds))>> ELSE << >>])]
    [] t.k = "a" -> A(Flat([i \in 1..Len(t.el) |-> IF t.el[i].k = "h"
                       THEN (IF Has(ds, t.el[i].d) THEN <<Show(ds[Find(ds, t.el[i].d)].v, ds)>> ELSE << >>)
                       ELSE <<Show(t.el[i], ds)>>]))
    [] OTHER -> t
Range(s) == {s[i] : i \in 1..Len(s)}
Dups(ds) == \E i, j \in 1..Len(ds) : i # j /\ ds[i] = ds[j]
\* one occurrence of each disclosure, for the processing rules other than "no duplicates"
RECURSIVE Uniq(_)
Uniq(ds) == IF ds = << >> THEN << >> ELSE IF \E i \in 1..Len(Tail(ds)) : Tail(ds)[i] = Head(ds) THEN Uniq(Tail(ds)) ELSE <<Head(ds)>> \o Uniq(Tail(ds))
Reserved == {"_sd", "..."}
Accept(tk) ==
  LET ds == Uniq(tk.ds)  met == Met(tk.root, ds) IN
  /\ tk.alg = "good"
  /\ \A i \in 1..Len(ds) : ds[i].kind = "wf" /\ ds[i].ar \in {2, 3} /\ (ds[i].ar = 3 => ds[i].n \notin Reserved)
  /\ \A i, j \in 1..Len(met) : met[i] = met[j] => i = j
  /\ ~Wrong(tk.root, ds)
  /\ \A i \in 1..Len(ds) : ds[i].d \in Range(met)

(* ---------------- behaviour ---------------- *)
None == [k |-> "none"]
Init == /\ pc = "attack" /\ tpl \in Templates /\ tok = [alg |-> "good", root |-> Base(tpl).root, ds |-> Base(tpl).ds]
        /\ atk = << >> /\ out = None
\* hashes are not cyclic and a digest stands for one disclosure
RECURSIVE DigsOf(_)
DigsOf(t) == CASE t.k = "o" -> Range(t.sd) \cup UNION {DigsOf(t.ch[i].v) : i \in 1..Len(t.ch)}
               [] t.k = "a" -> UNION {DigsOf(t.el[i]) : i \in 1..Len(t.el)}
               [] t.k = "h" -> {t.d}
               [] OTHER -> {}
Down(tk, D) == D \cup UNION {DigsOf(tk.ds[i].v) : i \in {j \in 1..Len(tk.ds) : tk.ds[j].d \in D}}
Below(tk, i) == LET D == DigsOf(tk.ds[i].v) IN Down(tk, Down(tk, Down(tk, Down(tk, D))))
Sane(tk) == /\ \A i \in 1..Len(tk.ds) : tk.ds[i].d \notin Below(tk, i)
            /\ \A i, j \in 1..Len(tk.ds) : tk.ds[i].d = tk.ds[j].d => tk.ds[i] = tk.ds[j]
Step(name, tk) == Sane(tk) /\ tok' = tk /\ atk' = Append(atk, name) /\ UNCHANGED <<pc, tpl, out>>
Can == pc = "attack" /\ Len(atk) < MaxAttacks
N == Len(tok.ds)
Digs == {"d1", "d2", "d3"} \cap {tok.ds[i].d : i \in 1..N}
Fresh == "f" \o ToString(Len(atk))   \* a digest nobody signed
New(i) == 100 + 10 * Len(atk) + i    \* leaves the issuer never signed
AddDisc(tk, x) == [tk EXCEPT !.ds = Append(@, x)]

(* by whoever carries the token: the payload is signed, the disclosure list is not *)
Omit == Can /\ \E i \in 1..N : Step("omit", [tok EXCEPT !.ds = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, N)])
AlterValue == Can /\ \E i \in 1..N : tok.ds[i].kind = "wf" /\ Step("alter-value", [tok EXCEPT !.ds[i].v = P(New(1)), !.ds[i].d = Fresh])
AlterName == Can /\ \E i \in 1..N : tok.ds[i].ar = 3 /\ Step("alter-name", [tok EXCEPT !.ds[i].n = "q", !.ds[i].d = Fresh])
AlterSalt == Can /\ \E i \in 1..N : tok.ds[i].kind = "wf" /\ Step("alter-salt", [tok EXCEPT !.ds[i].d = Fresh])
Duplicate == Can /\ \E i \in 1..N : Step("duplicate", AddDisc(tok, tok.ds[i]))
Foreign == Can /\ \E ar \in {2, 3} : Step("foreign", AddDisc(tok, IF ar = 3 THEN D3(Fresh, "q", P(New(2))) ELSE D2(Fresh, P(New(2)))))
Garbage == Can /\ \E b \in BadKinds : Step("garbage", AddDisc(tok, [d |-> Fresh, kind |-> b, ar |-> 3, n |-> "q", v |-> P(New(3))]))
(* by a misbehaving issuer: signed, but not well formed *)
RepeatSd == Can /\ \E d \in Digs, pl \in ObjPlaces(tok) : Step("repeat-sd", AddSd(tok, pl, d))
RepeatEl == Can /\ \E d \in Digs, pl \in ArrPlaces(tok) : Step("repeat-el", AddEl(tok, pl, d))
MoveSd == Can /\ \E d \in Digs, pl \in {x \in ObjPlaces(tok) : x[1] = 0} : Step("move-sd", AddSd(PurgeAll(tok, d), IF At(PurgeAll(tok, d).root, << >>).k = "o" THEN <<0, << >>>> ELSE pl, d))
MoveEl == Can /\ (\A i \in 1..Len(tok.root.ch) : tok.root.ch[i].n # "r") /\ \E d \in Digs : Step("move-el", [PurgeAll(tok, d) EXCEPT !.root.ch = Append(@, M("r", A(<<H(d)>>)))])
SignedBad == Can /\ \E b \in BadKinds \ {"std64"}, pl \in ObjPlaces(tok) :
               Step("signed-" \o b, AddSd(AddDisc(tok, [d |-> Fresh, kind |-> b, ar |-> 3, n |-> "q", v |-> P(New(4))]), pl, Fresh))
SignedReserved == Can /\ \E n \in Reserved, pl \in ObjPlaces(tok) : Step("reserved", AddSd(AddDisc(tok, D3(Fresh, n, P(New(5)))), pl, Fresh))
Collide == Can /\ \E n \in {"a", "b", "c", "x", "y", "q"}, pl \in ObjPlaces(tok), v \in {P(50 + Len(atk)), [k |-> "null"]} :
               Step("collide", AddSd(AddDisc(tok, D3("s" \o ToString(Len(atk)), n, v)), pl, "s" \o ToString(Len(atk))))
BadSd == Can /\ \E pl \in ObjPlaces(tok), b \in {"notarray", "nonstring"} :
               Step("sd-" \o b, WithTree(tok, pl[1], Put(Tree(tok, pl[1]), pl[2], [At(Tree(tok, pl[1]), pl[2]) EXCEPT !.sdk = b])))
BadAlg == Can /\ tok.alg = "good" /\ \E b \in {"missing", "md5", "sha-1", "number", "garbage"} : Step("alg-" \o b, [tok EXCEPT !.alg = b])
(* harmless: decoy digests *)
DecoySd == Can /\ \E pl \in ObjPlaces(tok) : Step("decoy-sd", AddSd(tok, pl, "y" \o ToString(Len(atk))))
DecoyEl == Can /\ \E pl \in ArrPlaces(tok) : Step("decoy-el", AddEl(tok, pl, "y" \o ToString(Len(atk))))

Verify == /\ pc = "attack"
          /\ out' = IF Dups(tok.ds) \/ ~Accept(tok) THEN [k |-> "reject"] ELSE [k |-> "ok", t |-> Show(tok.root, tok.ds)]
          /\ pc' = "done" /\ UNCHANGED <<tpl, tok, atk>>
Next == Omit \/ AlterValue \/ AlterName \/ AlterSalt \/ Duplicate \/ Foreign \/ Garbage \/ RepeatSd \/ RepeatEl \/ MoveSd \/ MoveEl
        \/ SignedBad \/ SignedReserved \/ Collide \/ BadSd \/ BadAlg \/ DecoySd \/ DecoyEl \/ Verify
Spec == Init /\ [][Next]_vars

RECURSIVE LeafIds(_)
LeafIds(t) == CASE t.k = "o" -> UNION {LeafIds(t.ch[i].v) : i \in 1..Len(t.ch)}
                [] t.k = "a" -> UNION {LeafIds(t.el[i]) : i \in 1..Len(t.el)}
                [] t.k = "p" -> {t.id}
                [] OTHER -> {}
NoForged == out.k = "ok" => \A i \in LeafIds(out.t) : i < 100
AllUsed == out.k = "ok" => \A i \in 1..N : tok.ds[i].v.k = "p" => tok.ds[i].v.id \in LeafIds(out.t)
ClosedOmit == (pc = "done" /\ \A i \in 1..Len(atk) : atk[i] \in {"decoy-sd", "decoy-el"}) => out.k = "ok"
Tampered == {"alter-value", "alter-name", "alter-salt", "foreign", "garbage", "duplicate"}
NoTamper == (pc = "done" /\ out.k = "ok") => \A i \in 1..Len(atk) : atk[i] \in Tampered => \E j \in (i+1)..Len(atk) : atk[j] = "omit"
Emit == pc = "done" => PrintT("@@" \o ToJson([expect |-> out.k, holder |-> (IF Accept(tok) THEN "ok" ELSE "reject"), tpl |-> tpl, base |-> Base(tpl).ds, atk |-> atk, tok |-> tok,
                                               out |-> IF out.k = "ok" THEN out.t ELSE None]))
=============================================================================
