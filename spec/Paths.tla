------------------------------- MODULE Paths -------------------------------
(***************************************************************************)
(* Wikis, the files in them and where their output is written.  The state  *)
(* is a layout of wikis and the path of a file being typed, component by   *)
(* component; the invariants say which wiki it belongs to, where its       *)
(* output is, and how it gets back to the root of its wiki.                *)
(***************************************************************************)
EXTENDS Links

P4(a, b, c, d) == SelectSeq(<<C(a), C(b), C(c), C(d)>>, LAMBDA x : x # <<>>)
MoreLayouts(n) ==
  CASE n <= 4 -> Layout(n)
    \* nested three deep with outputs crossed, equal names, equal paths
    [] n = 5 -> << W(P4("w", "a", "b", ""), P4("h", "", "", ""), C("w"), P3("d", "", "")),
                   W(P4("w", "a", "", ""), P4("h", "b", "", ""), <<>>, P3("d", "", "")),
                   W(P4("w", "", "", ""), P4("w", "a", "", ""), C("w"), P3("d", "", "")),
                   W(P4("w", "a", "b", ""), P4("k", "", "", ""), C("x y"), P3("d", "", "")) >>
    \* names that begin alike, dots in names, characters beyond ASCII
    [] n = 6 -> << W(P4("w.a", "", "", ""), P4("h.x", "", "", ""), C("W"), P3("d", "", "")),
                   W(P4("w.a", "b.c", "", ""), P4("h.x", "b.html", "", ""), C("w"), P3("d", "", "")),
                   W(<< C("w.a"), <<"u2">> >>, << <<"u3">>, C("b") >>, <<"u3">>, P3("d", "", "")),
                   W(P4("w", "", "", ""), P4("h", "", "", ""), C("w "), P3("d", "", "")) >>
    \* no wiki at all
    [] OTHER -> <<>>
Names == << C("w"), C("W"), C("x y"), C("q"), <<>>, <<"u3">>, C("w "), C("z") >>

PComp == CS({"a", "b", "w", "w.a", "ab", "h", "x y", ".", "..", ".h", "p.wiki", "a.b.c", "b.c", "a.", "html"}) \cup { <<"u2">>, <<"u2">> \o C(".md") }

\* at = << layout, is the path absolute? >>
PInit == toks = <<>> /\ at \in ((1 .. 7) \X BOOLEAN)
PNext == Len(toks) < N /\ (\E t \in PComp : toks' = Append(toks, t)) /\ UNCHANGED at
\* deeper: begins with the path of a wiki most of the time
PInitSim == \E l \in 1 .. 7, b \in BOOLEAN :
              /\ at = << l, b >>
              /\ toks \in IF b /\ l < 7 THEN { MoreLayouts(l)[k].path : k \in 1 .. Len(MoreLayouts(l)) } \cup {<<>>} ELSE {<<>>}
PNextSim == Len(toks) < N /\ toks' = Append(toks, RandomElement(PComp)) /\ UNCHANGED at

\* the steps never lead out
Stays(segs) == Steps(<<>>, segs)[1]
\* where the output of an input is written: << "at", file >> or << "odd" >>
OutputOf(w, abs, segs, ext) ==
  LET rel == IF abs THEN InWiki(w, segs) ELSE segs IN
  IF ~Stays(rel) THEN <<"odd">> ELSE FileAt(w.html, <<>>, rel, ext)

Plain(segs) == \A k \in 1 .. Len(segs) : segs[k] # DOTDOT
Within(w, segs) == IF IsPrefixOf(w.path, Real(segs)) THEN << "in", SubSeq(Real(segs), Len(w.path)+1, Len(Real(segs))) >> ELSE <<"out">>
NameIndex(wikis, name) == LET K == { k \in 1 .. Len(wikis) : wikis[k].name = name } IN
                          IF K = {} \/ name = <<>> THEN 0 ELSE CHOOSE k \in K : \A j \in K : k <= j
Exts == << HTML, <<>>, C("x"), C("tar.gz") >>

PathCase(wikis, abs, segs) ==
  LET cfg == [wikis |-> wikis] plain == Plain(segs) IN
  [ wikis |-> wikis, abs |-> abs, segs |-> segs,
    out |-> [k \in 1 .. Len(wikis) |-> [e \in 1 .. Len(Exts) |-> OutputOf(wikis[k], abs, segs, Exts[e])]],
    exts |-> Exts,
    known |-> abs /\ plain,
    owner |-> IF abs /\ plain THEN WikiOfPath(cfg, Real(segs)) ELSE 0,
    within |-> [k \in 1 .. Len(wikis) |-> IF abs /\ plain THEN Within(wikis[k], segs) ELSE <<"out">>],
    real |-> Real(segs),
    names |-> [k \in 1 .. Len(Names) |-> << Names[k], NameIndex(wikis, Names[k]) >>] ]

\* output lies below the output directory of its wiki, as deep as the file lies in the wiki,
\* and the way to the root of the wiki has one step for each directory on the way
PathSound(c) ==
  /\ \A k \in 1 .. Len(c.wikis), e \in 1 .. Len(Exts) :
       LET w == c.wikis[k] o == c.out[k][e] IN
       o[1] = "at" => /\ IsPrefixOf(w.html, o[2]) /\ Len(o[2]) > Len(w.html)
                      /\ (Plain(c.segs) /\ ~c.abs => Len(o[2]) - Len(w.html) = Len(c.real))
                      /\ (c.within[k][1] = "in" => /\ Len(o[2]) - Len(w.html) = Len(c.within[k][2])
                                                   /\ FrontOf(SubSeq(o[2], Len(w.html)+1, Len(o[2]))) = FrontOf(c.within[k][2]))
  /\ (c.known /\ c.owner > 0 => c.within[c.owner][1] = "in")
  /\ (c.known => \A k \in 1 .. Len(c.wikis) : c.within[k][1] = "in" => c.owner > 0 /\ Len(c.wikis[c.owner].path) >= Len(c.wikis[k].path))
EmitPath == LET c == PathCase(MoreLayouts(at[1]), at[2], toks) IN PathSound(c) /\ PrintT(<<"E", ToJson(c)>>)

(**************************** configured paths *****************************)
\* the path as it is written in a configuration: a beginning, then pieces
CBegin == { <<"/">>, <<"~", "/">>, <<"~">>, C("$HOME/"), C("${VWSEG}/"), C("/$VWSEG/"), C("./"), <<>>, C("../"), C("$VWNONE/"), C("//"), C("~a/"), C("/../"), C("$/") }
CPiece == CS({"a/", "b", "../", "..", "./", ".", "/", "x y/", "$VWSEG/", "${VWSEG}", "~", "~/", "$VWNONE", ".a/", "a..", "...", "$"}) \cup { <<"u2", "/">> }
CInit == toks = <<>> /\ at = <<>>
CNext == Len(toks) < N /\ (\E t \in IF toks = <<>> THEN CBegin ELSE CPiece : toks' = Append(toks, t)) /\ UNCHANGED at

\* the value of the variable VWSEG, and of HOME, as the driver sets them
SEG == C("v1/v 2")
HOMEV == C("/home/vw u")
Name1(c) == c \in (Uppers \cup Letters \cup Digits \cup {"_"})
RECURSIVE VarEnd(_,_)
VarEnd(t, i) == IF i <= Len(t) /\ Name1(t[i]) THEN VarEnd(t, i+1) ELSE i
ValueOf(n) == IF n = C("HOME") THEN << "v", HOMEV >> ELSE IF n = C("VWSEG") THEN << "v", SEG >> ELSE <<"none">>
RECURSIVE Expand(_,_,_)
\* the text with its variables replaced: << "v", text >>, << "none" >> for an unknown variable
Expand(t, i, acc) ==
  IF i > Len(t) THEN << "v", acc >>
  ELSE IF t[i] # "$" THEN Expand(t, i+1, Append(acc, t[i]))
  ELSE LET br == i < Len(t) /\ t[i+1] = "{"
           a == IF br THEN i+2 ELSE i+1
           z == VarEnd(t, a)
       IN IF i < Len(t) /\ t[i+1] = "$" THEN Expand(t, i+2, Append(acc, "$"))
          ELSE IF z = a THEN Expand(t, i+1, Append(acc, "$"))
          ELSE LET v == ValueOf(SubSeq(t, a, z-1)) IN
               IF v[1] = "none" THEN v ELSE Expand(t, IF br THEN z+1 ELSE z, acc \o v[2])
Tilde(t) == IF t = <<>> THEN t ELSE
            IF t[1] = "~" /\ (Len(t) = 1 \/ t[2] = "/") THEN HOMEV \o Tail(t) ELSE t
RECURSIVE Saturate(_,_)
\* the steps with `..` at the root staying there
Saturate(p, segs) ==
  IF segs = <<>> THEN p
  ELSE IF segs[1] \in { <<>>, DOT } THEN Saturate(p, Tail(segs))
  ELSE IF segs[1] = DOTDOT THEN Saturate(IF p = <<>> THEN p ELSE FrontOf(p), Tail(segs))
  ELSE Saturate(Append(p, segs[1]), Tail(segs))
\* what a configured path stands for: << "at", path >>, or << "bad" >>
Configured(t) ==
  LET x == Expand(Tilde(t), 1, <<>>) IN
  IF x[1] = "none" THEN <<"bad">>
  ELSE IF x[2] = <<>> THEN <<"bad">>
  ELSE IF x[2][1] # "/" THEN <<"bad">>
  ELSE << "at", Saturate(<<>>, SplitAt(x[2], 1, Len(x[2])+1, "/")) >>
EmitConf ==
  LET t == TextOf
      r == Configured(t)
  IN \/ \E k \in 1 .. Len(t) - 1 : t[k] = "$" /\ t[k+1] = "u2"     \* left to the shell
     \/ /\ r[1] = "at" => Plain(r[2]) /\ Real(r[2]) = r[2]
        /\ PrintT(<<"E", ToJson([conf |-> t, r |-> r])>>)
=============================================================================
