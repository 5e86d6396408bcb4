------------------------------- MODULE Html -------------------------------
(***************************************************************************)
(* What a page looks like in HTML: the tokens of the document (elements    *)
(* opened and closed, their attributes, text) that rendering must write    *)
(* for the page the grammar reads from a text.  A state holds the anchors  *)
(* given out so far and the texts of the headers seen last; rendering an   *)
(* element is a transition that yields its tokens.                         *)
(***************************************************************************)
EXTENDS Pages, Resolve

CONSTANT Conf

(***************************** configurations ******************************)
W(path, html, name, diary) == [path |-> path, html |-> html, name |-> name, diary |-> diary]
Cfg0 == [ wikis |-> << W(<<C("w"), C("a")>>, <<C("h"), C("a")>>, <<>>, <<C("diary")>>) >>,
          wi |-> 1, page |-> <<C("p.wiki")>>, nl |-> FALSE, com |-> FALSE, toc |-> C("Contents"), server |-> FALSE ]
Cfg1 == [ wikis |-> << W(<<C("w"), C("a")>>, <<C("h"), C("a")>>, C("w"), <<C("diary")>>),
                       W(<<C("w"), C("x y")>>, <<C("h"), C("x y")>>, C("x y"), <<C("my"), C("log")>>),
                       W(<<C("w"), C("a"), C("b")>>, <<C("k")>>, C("w"), <<C("diary")>>) >>,
          wi |-> 2, page |-> <<C("d"), C("e f"), C("p.x.wiki")>>, nl |-> TRUE, com |-> TRUE, toc |-> C("a"), server |-> FALSE ]
CfgOf(name) == CASE name = "plain" -> Cfg0
                 [] name = "other" -> Cfg1
                 [] name = "server" -> [Cfg0 EXCEPT !.server = TRUE]

(********************************* text ************************************)
LowerOf == [A |-> "a", B |-> "b", C |-> "c", D |-> "d", E |-> "e", F |-> "f", G |-> "g", H |-> "h", I |-> "i",
            J |-> "j", K |-> "k", L |-> "l", M |-> "m", N |-> "n", O |-> "o", P |-> "p", Q |-> "q", R |-> "r",
            S |-> "s", T |-> "t", U |-> "u", V |-> "v", W |-> "w", X |-> "x", Y |-> "y", Z |-> "z"]
Lower(c) == IF c \in Uppers THEN LowerOf[c] ELSE c
RECURSIVE NormFrom(_,_,_)
\* words in lower case, joined by dashes
NormFrom(x, i, acc) ==
  IF i > Len(x) THEN acc
  ELSE IF x[i] \in UniWs THEN NormFrom(x, i+1, acc)
  ELSE NormFrom(x, i+1, (IF acc # <<>> /\ i > 1 /\ x[i-1] \in UniWs THEN Append(acc, "-") ELSE acc) \o << Lower(x[i]) >>)
NormId(x) == NormFrom(x, 1, <<>>)

PctOf == [ u2 |-> "%C3%A9", u3 |-> "%E6%BC%A2", u4 |-> "%F0%9F%98%80", us |-> "%C2%A0", uw |-> "%E3%80%80", uc |-> "%CC%81",
           ul |-> "%E2%80%A8", cl |-> "%C2%85", vt |-> "%0B", ff |-> "%0C", nul |-> "%00" ]
Pct(c) == CASE c = " " -> "%20" [] c = "\"" -> "%22" [] c = "<" -> "%3C" [] c = ">" -> "%3E" [] c = "`" -> "%60"
            [] c = "#" -> "%23" [] c = "\t" -> "%09" [] c = "\r" -> "%0D" [] OTHER -> PctOf[c]
\* a target with what no URI may hold escaped (the first # starts the anchor; an empty port is none)
EncUri(s, r) ==
  LET a == r[1] z == r[2]
      c  == Scheme(s, a, z)
      p0 == IF c = 0 THEN a ELSE c + 1
      auth == M2(s, p0, z, "/", "/")
      p1 == IF auth THEN StopAt(s, p0+2, z, {"/", "?", "#"}) ELSE 0
      h  == Find1(s, a, z, "#")
      plain == IsUriWith(s, a, z, {})
      One(k) == (IF auth /\ k = p1 /\ s[k] # "/" THEN <<"/">> ELSE <<>>)
                \o (IF auth /\ k = p1 - 1 /\ s[k] = ":" /\ k > p0 + 1 THEN <<>> ELSE IF plain \/ k = h \/ s[k] \notin Encoded THEN << s[k] >> ELSE C(Pct(s[k])))
  IN Flat([k \in 1 .. z-a |-> One(a + k - 1)]) \o (IF auth /\ p1 = z THEN <<"/">> ELSE <<>>)

RECURSIVE Shown(_,_), DescShown(_,_)
LinkShown(s, t, ds) == IF ds # NIL THEN DescShown(s, ds) ELSE EncUri(s, t)
DescShown(s, ds) == IF ds[1] = "text" THEN SubSeq(s, ds[2], ds[3]-1) ELSE LinkShown(s, ds[2], ds[3])
Rng(s, r) == SubSeq(s, r[1], r[2]-1)
Shown1(s, x) ==
  CASE x[1] = "t" -> SubSeq(s, x[2], x[3]-1)
    [] x[1] = "kw" -> C(x[5])
    [] x[1] \in {"code", "math"} -> SubSeq(s, x[5], x[6]-1)
    [] x[1] \in {"lc", "mlc"} -> <<>>
    [] x[1] = "tags" -> Flat([k \in 1 .. Len(x[5]) |-> <<":">> \o Rng(s, x[5][k])]) \o <<":">>
    [] x[1] \in {"b", "i", "s", "sup", "sub"} -> Shown(s, x[5])
    [] x[1] \in {"wiki", "tr"} -> LinkShown(s, x[5], x[6])
    [] x[1] = "raw" -> EncUri(s, x[5])
    [] x[1] \in {"iwi", "iwn"} -> LinkShown(s, x[6], x[7])
    [] x[1] = "diary" -> IF x[7] = NIL THEN DateChars(x[5]) ELSE DescShown(s, x[7])
\* the text an element shows
Shown(s, xs) == Flat([k \in 1 .. Len(xs) |-> Shown1(s, xs[k])])

RECURSIVE TrimL(_,_), TrimR(_,_)
TrimL(x, i) == IF i <= Len(x) /\ x[i] \in UniWs THEN TrimL(x, i+1) ELSE i
TrimR(x, i) == IF i >= 1 /\ x[i] \in UniWs THEN TrimR(x, i-1) ELSE i
Trim(x) == SubSeq(x, TrimL(x, 1), TrimR(x, Len(x)))
RECURSIVE JoinWith(_,_)
JoinWith(xs, sep) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o sep \o JoinWith(Tail(xs), sep)

(******************************** anchors **********************************)
St0 == [ids |-> <<>>, hdr |-> <<>>, flag |-> ""]
RECURSIVE Number(_,_)
\* an anchor taken already gets a number that is not: << ids, anchor >>
Number(ids, id) ==
  IF id \notin DOMAIN ids THEN << ids, id >>
  ELSE LET n == ids[id] + 1
           t == id \o <<"-">> \o C(ToString(n)) IN
       IF t \notin DOMAIN ids THEN << [ids EXCEPT ![id] = n], t >>
       ELSE Number(ids, id \o <<"-", "1">>)
\* << state, anchor >>
Anchor(st, id) ==
  IF id \notin DOMAIN st.ids THEN << [st EXCEPT !.ids = (id :> 0) @@ st.ids], id >>
  ELSE LET r == Number(st.ids, id) IN << [st EXCEPT !.ids = r[1]], r[2] >>
MaxLevel(st) == IF DOMAIN st.hdr = {} THEN 0 ELSE SetMax(DOMAIN st.hdr)
\* the texts of the latest headers up to a level, then the text itself
Complete(st, lv, id) ==
  Flat([k \in 1 .. lv |-> IF k \in DOMAIN st.hdr THEN st.hdr[k] \o <<"-">> ELSE <<>>]) \o id

(******************************** tokens ***********************************)
O(tag, attrs) == << << "o", tag, attrs >> >>
E(tag) == << << "c", tag >> >>
V(tag, attrs) == << << "v", tag, attrs >> >>
T(x) == IF x = <<>> THEN <<>> ELSE << << "t", x >> >>
A(name, value) == << << "a", name, value >> >>
Br == T(<<"\n">>)
\* a flag is set once: a link whose wiki is unknown, or whose target is not specified
Flag(st, x) == IF x[1] = "odd" THEN [st EXCEPT !.flag = "odd"]
               ELSE IF x[1] = "err" /\ st.flag # "odd" THEN [st EXCEPT !.flag = "err"] ELSE st
\* properties: the last one of each name
PropsOf(s, ps) == SelectSeq([k \in 1 .. Len(ps) |-> << k, ps[k] >>],
                            LAMBDA y : \A j \in y[1]+1 .. Len(ps) : Rng(s, <<ps[j][1], ps[j][2]>>) # Rng(s, <<y[2][1], y[2][2]>>))
PropAttrs(s, ps) == Flat([k \in 1 .. Len(PropsOf(s, ps)) |-> << << "p" >> \o PropsOf(s, ps)[k][2] >>])

RECURSIVE Seq1(_,_,_,_,_)
\* the elements one after the other: << state, tokens >>
Seq1(F(_,_,_,_), s, xs, st, cfg) ==
  IF xs = <<>> THEN << st, <<>> >>
  ELSE LET r == F(s, xs[1], st, cfg)
           q == Seq1(F, s, Tail(xs), r[1], cfg) IN << q[1], r[2] \o q[2] >>

ImgTokens(s, t, ds, ps, st, cfg) ==
  LET at == TransclusionAt(s, t, cfg) IN
  << Flag(st, at), V("img", A("src", at) \o (IF ds = NIL THEN <<>> ELSE A("alt", << "s", DescShown(s, ds) >>)) \o PropAttrs(s, ps)) >>
\* a link with what it shows: its description, or what it is written as
LinkTokens(s, at, ds, ps, else, st, cfg) ==
  LET st1 == Flag(st, at)
      in == IF ds = NIL THEN << st1, else >>
            ELSE IF ds[1] = "text" THEN << st1, T(Rng(s, <<ds[2], ds[3]>>)) >>
            ELSE ImgTokens(s, ds[2], ds[3], ds[4], st1, cfg) IN
  << in[1], O("a", A("href", at) \o PropAttrs(s, ps)) \o in[2] \o E("a") >>
Written(r) == << << "u", r[1], r[2] >> >>

DecoTags == [ i |-> <<"em">>, s |-> <<"del">>, sup |-> <<"sup", "small">>, sub |-> <<"sub", "small">> ]
Marked(st, id, lv) ==
  \* << state, tokens before, anchor >>
  LET a == Anchor(st, id) IN
  IF lv = 0 THEN << a[1], <<>>, a[2] >>
  ELSE LET b == Anchor(a[1], Complete(a[1], lv, id)) IN
       << b[1], O("span", A("id", <<"s", b[2]>>)) \o E("span"), a[2] >>

RECURSIVE TagTokens(_,_,_)
TagTokens(names, st, s) ==
  IF names = <<>> THEN << st, <<>> >>
  ELSE LET id == NormId(Rng(s, names[1]))
           m == Marked(st, id, MaxLevel(st))
           q == TagTokens(Tail(names), m[1], s) IN
       << q[1], m[2] \o O("span", A("class", <<"s", C("tag")>>) \o A("id", <<"s", m[3]>>)) \o T(id) \o E("span") \o q[2] >>

RECURSIVE Inline(_,_,_,_)
Inline(s, x, st, cfg) ==
  LET k == x[1] IN
  CASE k = "t" -> << st, T(SubSeq(s, x[2], x[3]-1)) >>
    [] k = "kw" -> << st, IF x[5] = "TODO" THEN O("span", A("class", <<"s", C("todo")>>)) \o T(C("TODO")) \o E("span") ELSE T(C(x[5])) >>
    [] k = "code" -> << st, O("code", <<>>) \o T(SubSeq(s, x[5], x[6]-1)) \o E("code") >>
    [] k = "math" -> << st, T(<<"bs", "(">> \o SubSeq(s, x[5], x[6]-1) \o <<"bs", ")">>) >>
    [] k = "lc" -> << st, IF cfg.com THEN << << "x", SubSeq(s, x[5], x[6]-1) >> >> ELSE <<>> >>
    [] k = "mlc" -> << st, IF cfg.com THEN << << "x", Flat([j \in 1 .. Len(x[5]) |-> Rng(s, x[5][j]) \o NL]) >> >> ELSE <<>> >>
    [] k = "tags" -> TagTokens(x[5], st, s)
    [] k = "b" ->
         LET m == Marked(st, NormId(Shown(s, x[5])), MaxLevel(st))
             c == Seq1(Inline, s, x[5], m[1], cfg) IN
         << c[1], m[2] \o O("strong", A("id", <<"s", m[3]>>)) \o c[2] \o E("strong") >>
    [] k \in {"i", "s", "sup", "sub"} ->
         LET c == Seq1(Inline, s, x[5], st, cfg)
             g == DecoTags[k] IN
         << c[1], Flat([j \in 1 .. Len(g) |-> O(g[j], <<>>)]) \o c[2] \o Flat([j \in 1 .. Len(g) |-> E(g[Len(g)+1-j])]) >>
    [] k = "wiki" -> LinkTokens(s, WikiAt(s, x[5], cfg), x[6], x[7], Written(x[5]), st, cfg)
    [] k = "tr" -> ImgTokens(s, x[5], x[6], x[7], st, cfg)
    [] k = "raw" -> LinkTokens(s, << "uri", x[5][1], x[5][2] >>, <<>>, <<>>, << << "n", x[5][1], x[5][2] >> >>, st, cfg)
    [] k = "iwi" -> LinkTokens(s, IndexedAt(s, x[5], x[6], cfg), x[7], <<>>, Written(x[6]), st, cfg)
    [] k = "iwn" -> LinkTokens(s, NamedAt(s, x[5], x[6], cfg), x[7], <<>>, Written(x[6]), st, cfg)
    [] k = "diary" -> LinkTokens(s, DiaryAt(s, x[5], x[6], cfg), x[7], <<>>, T(C("diary:") \o DateChars(x[5])), st, cfg)
InlinesOf(s, xs, st, cfg) == Seq1(Inline, s, xs, st, cfg)

(******************************** blocks ***********************************)
Lvl(n) == "h" \o ToString(n)
HeaderTokens(s, x, st, cfg) ==
  LET n == x[5]
      shown == Shown(s, x[7])
      id == NormId(shown)
      a == Anchor(st, id)
      st1 == [a[1] EXCEPT !.hdr = (n :> id) @@ a[1].hdr]
      toc == n = 1 /\ Trim(shown) = cfg.toc
      full == Complete(st1, n-1, id)
      b == IF full = id THEN << st1, a[2] >> ELSE Anchor(st1, full)
      c == InlinesOf(s, x[7], IF toc THEN st1 ELSE b[1], cfg)
      h == "h" \o ToString(n)
  IN IF toc
     THEN << c[1], O("div", A("class", <<"s", C("toc")>>)) \o O(h, A("id", <<"s", a[2]>>)) \o c[2] \o E(h) \o E("div") >>
     ELSE << c[1], (IF full = id THEN <<>> ELSE O("div", A("id", <<"s", b[2]>>)))
                   \o O(h, A("id", <<"s", a[2]>>) \o A("class", <<"s", C("header")>>))
                   \o O("a", A("href", <<"s", <<"#">> \o b[2]>>)) \o c[2] \o E("a") \o E(h)
                   \o (IF full = id THEN <<>> ELSE E("div")) >>

RECURSIVE Groups(_,_,_)
\* runs of lines that are not empty
Groups(ls, cur, s) ==
  IF ls = <<>> THEN (IF cur = <<>> THEN <<>> ELSE << cur >>)
  ELSE IF ls[1][1] = ls[1][2] THEN (IF cur = <<>> THEN <<>> ELSE << cur >>) \o Groups(Tail(ls), <<>>, s)
  ELSE Groups(Tail(ls), Append(cur, Rng(s, ls[1])), s)
QuoteTokens(s, x) ==
  LET g == Groups(x[5], <<>>, s) IN
  O("blockquote", <<>>) \o
  (IF Len(g) > 1
   THEN Flat([k \in 1 .. Len(g) |-> O("p", <<>>) \o T(JoinWith([j \in 1 .. Len(g[k]) |-> Trim(g[k][j])], <<" ">>)) \o E("p")])
   ELSE Flat([k \in 1 .. Len(x[5]) |-> T(Rng(s, x[5][k]) \o NL)]))
  \o E("blockquote")

LinesText(s, ls) == Flat([k \in 1 .. Len(ls) |-> Rng(s, ls[k]) \o NL])
OnlyComments(l) == \A k \in 1 .. Len(l) : l[k][1] \in {"lc", "mlc"}
Blank0(x) == \A k \in 1 .. Len(x[5]) : OnlyComments(x[5][k])
RECURSIVE ParaOf(_,_,_,_)
ParaOf(s, ls, st, cfg) ==
  LET r == InlinesOf(s, ls[1], st, cfg) IN
  IF Len(ls) = 1 THEN r
  ELSE LET q == ParaOf(s, Tail(ls), r[1], cfg) IN
       << q[1], r[2] \o (IF cfg.nl THEN V("br", <<>>) ELSE T(<<" ">>)) \o q[2] >>

\* a cell of a table and its extent
RECURSIVE RunOf(_,_,_,_,_)
RunOf(rows, r, c, kind, dir) ==
  LET r1 == IF dir = "down" THEN r + 1 ELSE r
      c1 == IF dir = "down" THEN c ELSE c + 1 IN
  IF r1 <= Len(rows) /\ c1 <= Len(rows[r1]) /\ rows[r1][c1][1] = kind THEN 1 + RunOf(rows, r1, c1, kind, dir) ELSE 0
Extent(name, n) == IF n > 1 THEN A(name, <<"s", C(ToString(n))>>) ELSE <<>>
RECURSIVE RowTokens(_,_,_,_,_,_,_), RowsTokens(_,_,_,_,_,_)
RowTokens(s, rows, r, c, tag, st, cfg) ==
  IF c > Len(rows[r]) THEN << st, <<>> >>
  ELSE LET cell == rows[r][c]
           here == IF cell[1] # "cell" THEN << st, <<>> >>
                   ELSE LET i == InlinesOf(s, cell[5], st, cfg) IN
                        << i[1], O(tag, Extent("rowspan", 1 + RunOf(rows, r, c, "up", "down"))
                                        \o Extent("colspan", 1 + RunOf(rows, r, c, "left", "right"))) \o i[2] \o E(tag) >>
           rest == RowTokens(s, rows, r, c+1, tag, here[1], cfg) IN
       << rest[1], here[2] \o rest[2] >>
\* the rows with content among those numbered
RowsTokens(s, rows, ks, tag, st, cfg) ==
  IF ks = <<>> THEN << st, <<>> >>
  ELSE LET has == \E c \in 1 .. Len(rows[ks[1]]) : rows[ks[1]][c][1] = "cell"
           here == RowTokens(s, rows, ks[1], 1, tag, st, cfg)
           rest == RowsTokens(s, rows, Tail(ks), tag, here[1], cfg) IN
       << rest[1], (IF has THEN O("tr", <<>>) \o here[2] \o E("tr") ELSE <<>>) \o rest[2] >>
TableTokens(s, x, st, cfg) ==
  LET rows == x[6]
      div == { k \in 1 .. Len(rows) : DividerRow(rows[k]) }
      d == IF div = {} THEN 0 ELSE CHOOSE k \in div : \A j \in div : k <= j
      hd == [k \in 1 .. (IF d = 0 THEN 0 ELSE d - 1) |-> k]
      bd == SelectSeq([k \in 1 .. Len(rows) |-> k], LAMBDA k : k > d /\ k \notin div)
      h == RowsTokens(s, rows, hd, "th", st, cfg)
      b == RowsTokens(s, rows, bd, "td", h[1], cfg)
  IN << b[1], O("table", IF x[5] THEN A("class", <<"s", C("center")>>) ELSE <<>>)
              \o (IF hd = <<>> THEN <<>> ELSE O("thead", <<>>) \o h[2] \o E("thead"))
              \o (IF bd = <<>> THEN <<>> ELSE O("tbody", <<>>) \o b[2] \o E("tbody"))
              \o E("table") >>

TodoClass(m) == CASE m = " " -> "done0" [] m = "." -> "done1" [] m = "o" -> "done2" [] m = "O" -> "done3"
                  [] m = "X" -> "done4" [] m = "-" -> "rejected"
CodeTokens(s, x, cfg) ==
  IF cfg.server
  THEN << << "pre", LinesText(s, x[7]) >> >>
  ELSE O("pre", <<>>)
       \o O("code", (IF x[5] = <<>> THEN <<>> ELSE A("class", <<"s", Rng(s, x[5])>>)) \o PropAttrs(s, x[6]))
       \o T(JoinWith([k \in 1 .. Len(x[7]) |-> Rng(s, x[7][k])], NL))
       \o E("code") \o E("pre")
MathTokens(s, x) ==
  IF x[5] = <<>> THEN T(<<"bs", "[", "\n">> \o LinesText(s, x[6]) \o <<"bs", "]">>)
  ELSE T(<<"bs">> \o C("begin{") \o Rng(s, x[5]) \o <<"}", "\n">> \o LinesText(s, x[6]) \o <<"bs">> \o C("end{") \o Rng(s, x[5]) \o <<"}">>)

RECURSIVE BlockTokens(_,_,_,_), TermsTokens(_,_,_,_), DefsTokens(_,_,_,_)
DefsTokens(s, ds, st, cfg) ==
  IF ds = <<>> THEN << st, <<>> >>
  ELSE LET d == InlinesOf(s, ds[1][5], st, cfg)
           q == DefsTokens(s, Tail(ds), d[1], cfg) IN
       << q[1], O("dd", <<>>) \o d[2] \o E("dd") \o q[2] >>
TermsTokens(s, items, st, cfg) ==
  IF items = <<>> THEN << st, <<>> >>
  ELSE LET t == InlinesOf(s, items[1][1][5], st, cfg)
           d == DefsTokens(s, items[1][2], t[1], cfg)
           q == TermsTokens(s, Tail(items), d[1], cfg) IN
       << q[1], O("dt", <<>>) \o t[2] \o E("dt") \o d[2] \o q[2] >>
ItemTokens(s, x, st, cfg) ==
  LET c == Seq1(BlockTokens, s, x[8], st, cfg) IN
  << c[1], O("li", IF x[7] = "" THEN <<>> ELSE A("class", <<"s", C(TodoClass(x[7]))>>)) \o c[2] \o E("li") >>
BlockTokens(s, x, st, cfg) ==
  LET k == x[1] IN
  CASE k = "h" -> HeaderTokens(s, x, st, cfg)
    [] k = "hr" -> << st, V("hr", <<>>) >>
    [] k = "ph" -> << st, <<>> >>
    [] k = "bq" -> << st, QuoteTokens(s, x) >>
    [] k = "dl" -> LET r == TermsTokens(s, x[5], st, cfg) IN << r[1], O("dl", <<>>) \o r[2] \o E("dl") >>
    [] k = "list" -> LET tag == IF x[5][1][5] \in {"-", "*"} THEN "ul" ELSE "ol"
                         r == Seq1(ItemTokens, s, x[5], st, cfg) IN
                     << r[1], O(tag, <<>>) \o r[2] \o E(tag) >>
    [] k = "table" -> TableTokens(s, x, st, cfg)
    [] k = "code_block" -> << st, CodeTokens(s, x, cfg) >>
    [] k = "math_block" -> << st, MathTokens(s, x) >>
    [] k = "p" -> LET r == ParaOf(s, x[5], st, cfg) IN
                  IF Blank0(x) THEN r ELSE << r[1], O("p", <<>>) \o r[2] \o E("p") >>
TopBlock(s, x, st, cfg) == LET r == BlockTokens(s, x, st, cfg) IN << r[1], r[2] \o Br >>
HtmlOf(s, p, cfg) == Seq1(TopBlock, s, p, St0, cfg)

(***************************** invariants **********************************)
\* elements are closed in the order they were opened
RECURSIVE Balanced(_,_,_)
Balanced(ts, i, stack) ==
  IF i > Len(ts) THEN stack = <<>>
  ELSE IF ts[i][1] = "o" THEN Balanced(ts, i+1, Append(stack, ts[i][2]))
  ELSE IF ts[i][1] = "c" THEN stack # <<>> /\ stack[Len(stack)] = ts[i][2] /\ Balanced(ts, i+1, FrontOf(stack))
  ELSE Balanced(ts, i+1, stack)
AttrsOf(tok) == IF tok[1] \in {"o", "v"} THEN tok[3] ELSE <<>>
Values(ts, name) == Flat([k \in 1 .. Len(ts) |->
                      LET as == SelectSeq(AttrsOf(ts[k]), LAMBDA y : y[1] = "a" /\ y[2] = name /\ y[3][1] = "s") IN
                      [j \in 1 .. Len(as) |-> as[j][3][2]]])
\* does a text end in a number after a dash, so that it may be taken for a numbered one?
Numbered(id) == \E k \in 1 .. Len(id) - 1 : id[k] = "-" /\ \A j \in k+1 .. Len(id) : id[j] \in Digits
IdsDistinct(ts, st) ==
  LET v == Values(ts, "id") IN
  (\A id \in DOMAIN st.ids : ~Numbered(id)) => \A j, k \in 1 .. Len(v) : j # k => v[j] # v[k]
\* the link a header carries leads to an anchor there is
HeaderLinks(ts) ==
  LET v == Values(ts, "id") IN
  \A k \in 1 .. Len(ts) - 1 :
    (ts[k][1] = "o" /\ Len(ts[k][3]) = 2 /\ ts[k][3][2][1] = "a" /\ ts[k][3][2][2] = "class" /\ ts[k][3][2][3] = <<"s", C("header")>>)
      => /\ ts[k+1][1] = "o" /\ ts[k+1][2] = "a"
         /\ \E j \in 1 .. Len(v) : ts[k+1][3][1][3] = << "s", <<"#">> \o v[j] >>
Count(ts, tag) == Cardinality({ k \in 1 .. Len(ts) : ts[k][1] \in {"o", "v"} /\ ts[k][2] = tag })
Number1(p, kind) == Cardinality({ x \in AllOf(p) : x[1] = kind })
\* as many elements as the page has
Mirrors(p, ts) ==
  /\ Count(ts, "li") = Number1(p, "li")
  /\ Count(ts, "ul") + Count(ts, "ol") = Number1(p, "list")
  /\ Count(ts, "dt") = Number1(p, "term") /\ Count(ts, "dd") = Number1(p, "def")
  /\ Count(ts, "table") = Number1(p, "table") /\ Count(ts, "th") + Count(ts, "td") <= Number1(p, "cell")
  /\ Count(ts, "strong") = Number1(p, "b") /\ Count(ts, "em") = Number1(p, "i")
  /\ Count(ts, "blockquote") = Number1(p, "bq") /\ Count(ts, "hr") = Number1(p, "hr")
HtmlSound(p, ts, st) == Balanced(ts, 1, <<>>) /\ IdsDistinct(ts, st) /\ HeaderLinks(ts) /\ Mirrors(p, ts)

EmitHtmlOf(P(_), H(_,_,_), cfg) ==
  LET s == TextOf p == P(s) r == H(s, p, cfg) IN
  \/ r[1].flag = "odd"
  \/ /\ HtmlSound(p, r[2], r[1])
     /\ PrintT(<<"E", ToJson([t |-> s, cfg |-> cfg, h |-> IF r[1].flag = "err" THEN <<"error">> ELSE r[2], out |-> OutOf(cfg)])>>)
EmitHtml == EmitHtmlOf(Page, HtmlOf, CfgOf(Conf))
=============================================================================
