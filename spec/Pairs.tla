------------------------------- MODULE Pairs -------------------------------
(***************************************************************************)
(* Two pages, the second one made from the first by one edit.  They are    *)
(* equal when they hold the same elements, and strictly equal when these   *)
(* also lie at the same places.                                            *)
(***************************************************************************)
EXTENDS Pages
VARIABLES toks2, edit
PInit == Init /\ toks2 = <<>> /\ edit = ""
\* typing first, then one edit
TypeP == edit = "" /\ Next /\ UNCHANGED << toks2, edit >>
TypePSim == edit = "" /\ NextSim /\ UNCHANGED << toks2, edit >>
Without(k) == SubSeq(toks, 1, k-1) \o SubSeq(toks, k+1, Len(toks))
Edits(T(_)) ==
  /\ edit = "" /\ UNCHANGED toks
  /\ \/ edit' = "same" /\ toks2' = toks
     \/ edit' = "blank" /\ toks2' = << NL >> \o toks
     \/ edit' = "space" /\ toks2' = toks \o << <<" ">> >>
     \/ edit' = "end" /\ toks2' = toks \o << NL >>
     \/ \E k \in 1 .. Len(toks) :
          \/ edit' = "drop" /\ toks2' = Without(k)
          \/ edit' = "twice" /\ toks2' = SubSeq(toks, 1, k) \o SubSeq(toks, k, Len(toks))
          \/ k > 1 /\ edit' = "swap" /\ toks2' = [toks EXCEPT ![k] = toks[k-1], ![k-1] = toks[k]]
          \/ \E x \in T(k) : edit' = "other" /\ toks2' = [toks EXCEPT ![k] = x]
PNext == TypeP \/ Edits(AlphaAt)
OneOf(k) == {RandomElement(AlphaAt(k))}
PNextSim == IF Len(toks) < N THEN TypePSim ELSE Edits(OneOf)
EmitPairOf(P(_)) ==
  edit # "" => LET s == TextOf u == FlattenSeq(toks2) p == P(s) q == P(u) IN
     /\ (s = u) => (p = q)
     /\ PrintT(<<"E", ToJson([t |-> s, p |-> p, t2 |-> u, p2 |-> q, edit |-> edit])>>)
EmitPair == EmitPairOf(Page)
=============================================================================
