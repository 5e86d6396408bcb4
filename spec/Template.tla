----------------------------- MODULE Template ------------------------------
(***************************************************************************)
(* A page put into its template.  The state is the page typed so far, the  *)
(* template typed so far, where the page is; the invariant says what the   *)
(* finished document is: the template with each variable replaced, once.   *)
(***************************************************************************)
EXTENDS Links

CONSTANT NT              \* how many pieces of template
VARIABLE tpl

APage == { Line(x) : x \in {"%title a b", "%title %date% %content%", "%title <i>&\"q\"</i>", "%title  x ", "%date 2021-02-28", "%date 0001-12-31", "%date 2021-02-30", "%template one", "%template two.x",
            "%template none", "%template d/one", "%template <&", "%nohtml", "%other %title%", "text %title% %content%", "= a =", "%title", "- %title c", "<b>%%c", ""} }
         \cup { C("%title ") \o <<"u2", "\n">>, C("%title x") \o <<"\r", "\n">> }
ATpl == CS({"%title%", "%date%", "%root_path%", "%wiki_path%", "%css%", "%encoding%", "%content%", "x", "%", "<a>", "%Title%", "title", "%%", "\n", " ", "content%", "%root_path", "root_path%"}) \cup {<<"u3">>}

\* the files in the directory of templates, with the extension the configuration gives
Files == << << C("one.tpl"), C("1 %title%|%content%.") >>, << C("two.x"), C("2 %content%%title%%date%%") >>, << C("one"), C("bad") >>, << C("<&.tpl"), C("3%css%%content%") >>,
            << C("d/one.tpl"), C("4%encoding%%wiki_path%%root_path%") >> >>
CSS == C("st%title%yle.css")

TInit == toks = <<>> /\ tpl = <<>> /\ at \in Places
TInit1 == toks = <<>> /\ tpl = <<>> /\ at = << 2, 2, 3 >>
TNext == \/ Len(tpl) < NT /\ toks = <<>> /\ (\E t \in ATpl : tpl' = Append(tpl, t)) /\ UNCHANGED << toks, at >>
         \/ Len(toks) < N /\ (\E t \in APage : toks' = Append(toks, t)) /\ UNCHANGED << tpl, at >>
TInitSim == toks = <<>> /\ tpl = <<>> /\ at \in Places
TNextSim == \/ Len(tpl) < NT /\ tpl' = Append(tpl, RandomElement(ATpl)) /\ UNCHANGED << toks, at >>
            \/ Len(toks) < N /\ toks' = Append(toks, RandomElement(APage)) /\ UNCHANGED << tpl, at >>

\* the placeholders of a page, in order
RECURSIVE PhIn(_)
PhIn(x) == IF x[1] = "ph" THEN << x >> ELSE Flat([k \in 1 .. Len(Children(x)) |-> PhIn(Children(x)[k])])
Phs(p) == Flat([k \in 1 .. Len(p) |-> PhIn(p[k])])
LastPh(p, kind) == LET s == SelectSeq(Phs(p), LAMBDA x : x[5] = kind) IN IF s = <<>> THEN <<>> ELSE << s[Len(s)] >>

\* the values of the variables; a value is a sequence of pieces of the document
TitleOf(s, p, cfg) == LET x == LastPh(p, "title") IN
                      << "esc", IF x = <<>> THEN Stem(cfg.page[Len(cfg.page)]) ELSE Rng(s, x[1][7]) >>
DateVal(p) == LET x == LastPh(p, "date") IN IF x = <<>> THEN <<"today">> ELSE << "t", DateChars(x[1][7]) >>
RECURSIVE Ups(_)
Ups(n) == IF n = 0 THEN <<>> ELSE C("../") \o Ups(n-1)
RECURSIVE Slashed(_)
Slashed(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o <<"/">> \o Slashed(Tail(p))
Vars == << C("title"), C("date"), C("root_path"), C("wiki_path"), C("css"), C("encoding"), C("content") >>
VarVal(v, s, p, cfg) ==
  CASE v = 1 -> TitleOf(s, p, cfg)
    [] v = 2 -> DateVal(p)
    [] v = 3 -> << "t", Ups(Len(cfg.page) - 1) >>
    [] v = 4 -> << "t", Slashed(cfg.page) >>
    [] v = 5 -> << "t", CSS >>
    [] v = 6 -> << "t", C("utf-8") >>
    [] v = 7 -> <<"content">>
\* the variable that begins at i (0 when none does)
VarAt(t, i) == LET K == { v \in 1 .. Len(Vars) : IsPrefixOf(<<"%">> \o Vars[v] \o <<"%">>, SubSeq(t, i, Len(t))) } IN
               IF K = {} THEN 0 ELSE CHOOSE v \in K : TRUE
RECURSIVE Fill(_,_,_,_,_)
Fill(t, i, s, p, cfg) ==
  IF i > Len(t) THEN <<>>
  ELSE LET v == IF t[i] = "%" THEN VarAt(t, i) ELSE 0 IN
       IF v = 0 THEN << << "t", << t[i] >> >> >> \o Fill(t, i+1, s, p, cfg)
       ELSE << VarVal(v, s, p, cfg) >> \o Fill(t, i + Len(Vars[v]) + 2, s, p, cfg)
\* two variables must not share a %
RECURSIVE Clear(_,_)
Clear(t, i) ==
  IF i > Len(t) THEN TRUE
  ELSE LET v == IF t[i] = "%" THEN VarAt(t, i) ELSE 0 IN
       IF v = 0 THEN Clear(t, i+1)
       ELSE VarAt(t, i + Len(Vars[v]) + 1) = 0 /\ Clear(t, i + Len(Vars[v]) + 2)

\* the text of the template the page asks for
FileNamed(name) == LET K == { k \in 1 .. Len(Files) : Files[k][1] = name } IN IF K = {} THEN <<>> ELSE << Files[CHOOSE k \in K : TRUE][2] >>
RECURSIVE AfterSlash(_)
AfterSlash(x) == LET K == { k \in 1 .. Len(x) : x[k] = "/" } IN IF K = {} THEN x ELSE SubSeq(x, (CHOOSE k \in K : \A j \in K : j <= k) + 1, Len(x))
Chosen(s, p) ==
  LET x == LastPh(p, "template") IN
  IF x = <<>> THEN << FlattenSeq(tpl) >>
  ELSE LET n == Rng(s, x[1][7]) IN FileNamed(IF ExtOf(AfterSlash(n)) = <<>> THEN n \o C(".tpl") ELSE n)

Doc(s, p, cfg) == LET t == Chosen(s, p) IN IF t = <<>> THEN << <<"error">> >> ELSE Fill(t[1], 1, s, p, cfg)

\* each variable of the template is there as often as the template has it, the rest is kept
Count1(d, kind) == Cardinality({ k \in 1 .. Len(d) : d[k][1] = kind })
DocSound(s, p, cfg, d) ==
  d = << <<"error">> >> \/
  LET t == Chosen(s, p)[1]
      n(v) == Cardinality({ i \in 1 .. Len(t) : t[i] = "%" /\ VarAt(t, i) = v })
  IN /\ Count1(d, "content") = n(7) /\ Count1(d, "esc") = n(1)
     /\ Len(d) = Len(t) - (n(1)*6 + n(2)*5 + n(3)*10 + n(4)*10 + n(5)*4 + n(6)*9 + n(7)*8)
EmitDocOf(P(_)) ==
  LET s == TextOf p == P(s) cfg == CfgAt(at) t == Chosen(s, p) IN
  \/ t # <<>> /\ ~Clear(t[1], 1)
  \/ LET d == Doc(s, p, cfg) IN
     /\ DocSound(s, p, cfg, d)
     /\ PrintT(<<"E", ToJson([t |-> s, cfg |-> cfg, css |-> CSS, files |-> Files, tpl |-> FlattenSeq(tpl), d |-> d])>>)
EmitDoc == EmitDocOf(Page)
=============================================================================
