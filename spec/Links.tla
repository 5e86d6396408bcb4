------------------------------- MODULE Links -------------------------------
(***************************************************************************)
(* A page somewhere in one of several wikis, with a link in it.  The state *)
(* is where the page is and what has been typed of the link so far; the    *)
(* invariant says what following the link leads to, and hands the page to  *)
(* the harness.                                                            *)
(***************************************************************************)
EXTENDS Html

VARIABLE at      \* << layout, wiki of the page, page within it >>

\* layouts: alone; side by side with one named like the start of another; one within another,
\* with outputs likewise; outputs inside the wikis
P3(a, b, c) == SelectSeq(<<C(a), C(b), C(c)>>, LAMBDA x : x # <<>>)
Layout(n) ==
  CASE n = 1 -> << W(P3("w", "", ""), P3("h", "", ""), <<>>, P3("diary", "", "")) >>
    [] n = 2 -> << W(P3("w", "a", ""), P3("h", "a", ""), C("w"), P3("diary", "", "")),
                   W(P3("w", "ab", ""), P3("h", "ab", ""), C("w"), P3("my", "log", "")),
                   W(P3("v w", "", ""), P3("h h", "x&y", ""), C("x y"), P3("my log", "", "")) >>
    [] n = 3 -> << W(P3("w", "a", ""), P3("h", "a", ""), C("x y"), P3("a", "b", "c")),
                   W(P3("w", "", ""), P3("h", "", ""), C("w"), P3("diary", "", "")),
                   W(P3("w", "a", "b"), P3("h", "a", "b"), C("w"), P3("d", "", "")) >>
    [] n = 4 -> << W(P3("w", "", ""), P3("w", "html", ""), C("w"), P3("diary", "", "")),
                   W(P3("w", "html", ""), P3("w", "html", "html"), C("x y"), P3("diary", "", "")),
                   W(<<>>, P3("o", "", ""), C("z"), P3("diary", "", "")) >>
Pages3 == << << C("p.wiki") >>, << C("a"), C("p.wiki") >>, << C("a"), C("b c"), C("p.x.wiki") >>, << C("diary"), C("2021-02-28.wiki") >>,
             << C("a"), C("b"), C("c"), C("index") >>, << C("a"), C("a"), <<"u2">> \o C(".md") >> >>
CfgAt(x) == [Cfg0 EXCEPT !.wikis = Layout(x[1]), !.wi = x[2], !.page = Pages3[x[3]]]
Places == { x \in (1 .. 4) \X (1 .. 3) \X (1 .. Len(Pages3)) : x[2] <= Len(Layout(x[1])) }

\* the parts of a link in turn
GPath(k) ==
  CASE k = 1 -> CS({"[[", "{{", "[[wiki0:", "[[wiki1:", "[[wiki3:", "[[wn.w:", "[[wn.x y:", "[[wn.q:", "[[file:", "[[local:", "[[http:"})
    [] k = 2 -> CS({"", "/", "../", "./", "a/", "../../", "/w/a/", "//h/", "a/../b/", "/../"})
    [] k = 3 -> CS({"", "a", "b c", "x.y", ".z", "e/", "p.html/q", "p.x.html/q", "x:y", "..", "p", "a//b", "a%2Fb", "a.b.c/", "./d", "?q"}) \cup {<<"u2">> \o C("/d")}
    [] k = 4 -> CS({"", "#s", "#s#t u", "#"})
    [] OTHER -> CS({"]]", "}}", "|d]]", "|d}}"})
GDiary(k) ==
  CASE k = 1 -> CS({"[[diary:", "[[diary:+", "[[diary:-"})
    [] k = 2 -> CS({"2021-02-28", "0001-01-01", "12345-12-31"})
    [] k = 3 -> CS({"", "#s", "#s#t u", "#", "|d"})
    [] OTHER -> CS({"]]"})
Part(k) == IF Which = "GDiary" THEN GDiary(k) ELSE GPath(k)

LInit == toks = <<>> /\ at \in Places
LNext == Len(toks) < N /\ (\E t \in Part(Len(toks) + 1) : toks' = Append(toks, t)) /\ UNCHANGED at
LInitSim == LInit
LNextSim == Len(toks) < N /\ toks' = Append(toks, RandomElement(Part(Len(toks) + 1))) /\ UNCHANGED at

\* a link leads below the output of the wiki it is for, unless its steps lead out of it
Kept(P(_), H(_,_,_)) ==
  LET s == TextOf p == P(s) cfg == CfgAt(at) r == H(s, p, cfg)
      as == Flat([k \in 1 .. Len(r[2]) |-> AttrsOf(r[2][k])])
      locs == { as[k][3] : k \in { j \in 1 .. Len(as) : as[j][1] = "a" /\ as[j][3][1] = "loc" } }
  IN (\A j \in 1 .. Len(s)-1 : ~(s[j] = "." /\ s[j+1] = "."))
       => \A x \in locs : \E w \in 1 .. Len(cfg.wikis) : IsPrefixOf(cfg.wikis[w].html, x[2])
EmitLink == Len(toks) < N \/ (Kept(Page, HtmlOf) /\ EmitHtmlOf(Page, HtmlOf, CfgAt(at)))
=============================================================================
