------------------------------- MODULE Pages -------------------------------
(***************************************************************************)
(* Pages as they are written: the state is the sequence of pieces typed so *)
(* far, a step types one more piece of the alphabet.  In every state the   *)
(* text read so far is a page (Grammar); the invariants below are what a   *)
(* reader of pages relies on, stated without reference to how the grammar  *)
(* decides.  Emit hands the text and the page the grammar gives it to the  *)
(* harness, which reads the same text with the real code.                  *)
(***************************************************************************)
EXTENDS Grammar, Json, SequencesExt, TableApi

CONSTANTS Which, N      \* the name of the set of pieces, and how many pieces
VARIABLE toks

TextOf == FlattenSeq(toks)

(**************************** shared helpers *******************************)
\* the characters of a string
C(str) == [k \in 1 .. Len(str) |-> SubSeq(str, k, k)]
CS(strs) == { C(x) : x \in strs }
Cat(A, B) == { x \o y : x \in A, y \in B }
NL == <<"\n">>
CRLF == <<"\r", "\n">>
Line(x) == C(x) \o NL
LineCr(x) == C(x) \o CRLF

Elements(p) == { p[k] : k \in 1 .. Len(p) }

\* children of an element, in order
Flat(ss) == FlattenSeq(ss)
DlChildren(items) == Flat([k \in 1 .. Len(items) |-> << items[k][1] >> \o items[k][2]])
Children(x) ==
  CASE x[1] = "h"  -> x[7]
    [] x[1] = "dl" -> DlChildren(x[5])
    [] x[1] \in {"term", "def", "b", "i", "s", "sup", "sub"} -> x[5]
    [] x[1] = "table" -> Flat(x[6])
    [] x[1] = "cell" -> x[5]
    [] x[1] = "list" -> x[5]
    [] x[1] = "li" -> x[8]
    [] x[1] = "p" -> Flat(x[5])
    [] OTHER -> <<>>
RECURSIVE All(_)
\* an element and everything in it
All(x) == {x} \cup UNION { All(Children(x)[k]) : k \in 1 .. Len(Children(x)) }
AllOf(p) == UNION { All(p[k]) : k \in 1 .. Len(p) }

(***************************** invariants **********************************)
\* reading never gets stuck
NeverStuck(s, p) == \A k \in 1 .. Len(p) : p[k][1] # "stuck"

\* line number of every position
Sol(s, i) == Bol(s, i)
\* first position of the line of i
RECURSIVE LineStart(_,_)
LineStart(s, i) == IF Bol(s, i) THEN i ELSE LineStart(s, i-1)

\* every character of a non-blank line lies in exactly one element of the page,
\* and elements begin and end at line bounds
Covered(s, p) ==
  \A i \in 1 .. Len(s) :
    (s[i] \notin AsciiWs) =>
      Cardinality({ k \in 1 .. Len(p) : p[k][2] <= i /\ i < p[k][3] }) = 1

\* elements are in order, disjoint, inside their parent, one level deeper
Ordered(xs) == \A k \in 1 .. Len(xs) - 1 : xs[k][3] <= xs[k+1][2]
Nested1(x) ==
  LET c == Children(x) IN
  \A k \in 1 .. Len(c) : /\ x[2] <= c[k][2] /\ c[k][3] <= x[3]
                         /\ c[k][4] = x[4] + 1
WellPlaced(s, p) ==
  /\ Ordered(p)
  /\ \A k \in 1 .. Len(p) : p[k][4] = 0
  /\ \A x \in AllOf(p) : /\ x[2] < x[3] \/ x[1] = "cell"
                         /\ x[3] <= Len(s) + 1
                         /\ Nested1(x)
                         /\ Ordered(Children(x))

\* the pieces of a line follow each other without a gap
Tiled(xs) == \A k \in 1 .. Len(xs) - 1 : xs[k][3] = xs[k+1][2]
DelimLen(k) == IF k \in {"s", "sub"} THEN 2 ELSE 1
NothingLost(s, p) ==
  \A x \in AllOf(p) :
    /\ x[1] = "p" => \A k \in 1 .. Len(x[5]) :
         LET l == x[5][k] IN
         /\ Tiled(l) /\ l # <<>>
         /\ l[1][2] = SkipBlank(s, LineStart(s, l[1][2]), l[1][2] + 1)
            \/ l[1][2] > LineStart(s, l[1][2])
         /\ l[Len(l)][3] = Eol(s, l[Len(l)][3], Len(s) + 1)
    /\ x[1] \in {"b", "i", "s", "sup", "sub"} =>
         /\ Tiled(x[5]) /\ x[5] # <<>>
         /\ x[5][1][2] = x[2] + DelimLen(x[1])
         /\ x[5][Len(x[5])][3] = x[3] - DelimLen(x[1])
    /\ x[1] = "cell" /\ x[5] # <<>> =>
         /\ Tiled(x[5]) /\ x[5][1][2] = x[2] /\ x[5][Len(x[5])][3] = x[3]

\* lists: the kind of the first item, positions by order, indentation by nesting
IndentAt(s, i) == i - LineStart(s, i)
ListShape(s, p) ==
  \A x \in AllOf(p) : x[1] = "list" =>
    /\ x[5] # <<>>
    /\ \A k \in 1 .. Len(x[5]) :
         /\ x[5][k][1] = "li" /\ x[5][k][5] = x[5][1][5] /\ x[5][k][6] = x[5][1][6]
         \* siblings start at the indentation of the first, unless the list starts in mid-line
         /\ Bol(s, x[2]) => IndentAt(s, x[5][k][2]) = IndentAt(s, x[5][1][2])
         \* everything on later lines of an item is indented deeper than it
         /\ \A i \in x[5][k][2] .. x[5][k][3] - 1 :
              (s[i] \notin AsciiWs /\ LineStart(s, i) > x[5][k][2])
                 => SkipBlank(s, LineStart(s, i), i + 1) - LineStart(s, i)
                      > SkipBlank(s, LineStart(s, x[5][k][2]), x[5][k][2]+1)
                         - LineStart(s, x[5][k][2])

\* tables: at least one row that is no divider
TableShape(s, p) ==
  \A x \in AllOf(p) : x[1] = "table" => \E k \in 1 .. Len(x[6]) : ~DividerRow(x[6][k])

\* code and math: as many lines as between the fences; every line ends where its source line ends
FenceShape(s, p) ==
  \A x \in AllOf(p) :
    x[1] \in {"code_block", "math_block"} =>
      LET ls == IF x[1] = "code_block" THEN x[7] ELSE x[6] IN
      /\ \A k \in 1 .. Len(ls) : ls[k][2] = Eol(s, ls[k][1], Len(s) + 1)
      /\ Cardinality({ i \in x[2] .. x[3] - 1 : s[i] = "\n" })
           \in { Len(ls) + 1, Len(ls) + 2 }

\* definition lists: every term has text, every term but the last of a run … has a definition
DefShape(s, p) ==
  \A x \in AllOf(p) : x[1] = "dl" =>
    \A k \in 1 .. Len(x[5]) : x[5][k][1][1] = "term" /\ x[5][k][2] # <<>>

\* blank lines leave no trace: a page is what its parts between blank lines are
Sound(s, p) == /\ NeverStuck(s, p) /\ Covered(s, p) /\ WellPlaced(s, p) /\ NothingLost(s, p)
               /\ ListShape(s, p) /\ TableShape(s, p) /\ FenceShape(s, p) /\ DefShape(s, p)

\* (operators are handed over, since TLC takes seconds to analyse what it can see
\* from an operator without parameters)
EmitOf(P(_)) == LET s == TextOf IN PrintT(<<"E", ToJson([t |-> s, p |-> P(s)])>>)
EmitIf(P(_), Q(_,_)) == LET s == TextOf p == P(s) IN
                        Q(s, p) /\ PrintT(<<"E", ToJson([t |-> s, p |-> p])>>)
Emit == EmitOf(Page)
\* the same with what every table of the page must answer, in document order
RECURSIVE PreOrder(_)
PreOrder(x) == << x >> \o Flat([k \in 1 .. Len(Children(x)) |-> PreOrder(Children(x)[k])])
KindOf(c) == IF c[1] = "align"
             THEN CASE c[5] = "none" -> "none" [] c[5] = "left" -> "lft"
                    [] c[5] = "center" -> "ctr" [] c[5] = "right" -> "rgt"
             ELSE c[1]
GridOf(rows) ==
  LET D == { << r-1, c-1 >> : r \in 1 .. Len(rows), c \in 1 .. SetMax({ Len(rows[k]) : k \in 1 .. Len(rows) }) } IN
  [p \in { q \in D : q[2] < Len(rows[q[1]+1]) } |-> KindOf(rows[p[1]+1][p[2]+1])]
TablesOf(p) == SelectSeq(Flat([k \in 1 .. Len(p) |-> PreOrder(p[k])]), LAMBDA x : x[1] = "table")
EmitTb(P(_), Q(_,_)) == LET s == TextOf p == P(s) ts == TablesOf(p) IN
       Q(s, p) /\ PrintT(<<"E", ToJson([t |-> s, p |-> p,
                   tb |-> [k \in 1 .. Len(ts) |-> Api(GridOf(ts[k][6]))]])>>)
EmitTables == EmitTb(Page, Sound)

\* walking from an element to its children: a table hands out what is in its cells
Kids(x) == IF x[1] = "table"
           THEN LET cs == Children(x) IN Flat([k \in 1 .. Len(cs) |-> Children(cs[k])])
           ELSE Children(x)
RECURSIVE Walk(_)
Walk(x) == << << x[1], x[2], x[3], x[4], Len(Kids(x)) >> >>
           \o Flat([k \in 1 .. Len(Kids(x)) |-> Walk(Kids(x)[k])])
WalkPage(p) == Flat([k \in 1 .. Len(p) |-> Walk(p[k])])
\* every element is met once, after what lies before it
WalkOK(s, p) == LET w == WalkPage(p) IN
  /\ \A k \in 1 .. Len(w) - 1 : w[k][2] <= w[k+1][2]
  /\ Cardinality({ k \in 1 .. Len(w) : TRUE }) = Cardinality({ x \in AllOf(p) : x[1] \notin {"cell", "up", "left", "align"} })
EmitWk(P(_)) == LET s == TextOf p == P(s) IN
       WalkOK(s, p) /\ PrintT(<<"E", ToJson([t |-> s, p |-> p, w |-> WalkPage(p)])>>)
EmitWalk == EmitWk(Page)
EmitSound == EmitIf(Page, Sound)

\* what comes after a paragraph and a blank line is read as if it stood alone, only
\* further on: the harness relies on this to place texts far into a long one
FarPrefix == << "%", "%", "c", "\n", "\n" >>
RECURSIVE Kinds(_)
Kinds(x) == << x[1], x[2], x[3], x[4] >> 
            \o Flat([k \in 1 .. Len(Children(x)) |-> << Kinds(Children(x)[k]) >>])
RECURSIVE KindsFrom(_,_)
KindsFrom(x, n) == << x[1], x[2] + n, x[3] + n, x[4] >>
            \o Flat([k \in 1 .. Len(Children(x)) |-> << KindsFrom(Children(x)[k], n) >>])
FarOf(P(_)) == LET s == TextOf p == P(s) n == Len(FarPrefix) q == P(FarPrefix \o s) IN
     /\ Len(q) = Len(p) + 1 /\ q[1][1] = "p" /\ q[1][3] = n
     /\ \A k \in 1 .. Len(p) : Kinds(q[k+1]) = KindsFrom(p[k], n)
     /\ PrintT(<<"E", ToJson([t |-> s, p |-> p])>>)
EmitFar == FarOf(Page)

(***************************** alphabets ***********************************)
\* inline markup, one line
AInline(u) == CS({"*", "_", "~~", "`", "$", "a", " ", ":", "[[", "]]", "%%", "TODO"}) \cup {<<"u2">>, NL}
AInline2(u) == CS({"*", "_", "~~", "^", ",,", "`", "$", "a", "b c", " ", ":", "[[", "]]", "|", "{{", "}}",
                "%%", "%%+", "+%%", "+", "TODO", "XXX", "DONE", "FIXED", "FIXME", "STARTED", "TOD", "#",
                "http://x", "https:a", "ftp:", ":t:", "1", "-", "=", "\\", "<", "&"})
            \cup {<<"u2">>, <<"u3">>, <<"u4">>, <<"us">>, NL, CRLF, <<"\t">>, <<"\r">>}
\* nesting of decorated text
ADeco(u) == CS({"*", "_", "~~", "^", ",,", "a", " ", "TODO", "[[a]]", "`"})
AComment(u) == CS({"%%", "%%+", "+%%", "%", "+", "a", " ", "*", "`", "$", "[[a", "]]"}) \cup {NL}
\* links
ALink(u) == CS({"[[", "]]", "{{", "}}", "|", "a", "b c", "/", "#", "wiki1:", "wn.x:", "diary:", "2021-02-28",
             "2021-02-29", "2020-02-29", "file:", "http:", "//", "k=\"v\"", ":", "%20", " ", "."})
         \cup {<<"u2">>, NL}
ALink2(u) == CS({"[[a", "[[a/b", "[[/a", "[[a#b", "[[#b", "[[a#b#c", "[[wiki1:a", "[[wiki12:a", "[[wiki:a", "[[wn.x:a", "[[wn.x y:a#b",
              "[[diary:2021-02-28", "[[diary:2021-02-28#x", "[[diary:2020-02-30", "[[file:a", "[[a b", "[[a%20b",
              "[[a/", "[[http://a", "[[a?b", "|d", "|d e", "|{{i", "|k=\"v\"", "|k=\"v\" l=\"w\"", "]]", "}}", "{{a", "{{a/b.png", "{{http://a",
              "]", "}", "http://a", "mailto:a", " ", "x"})
          \cup {<<"[","[","u2">>, <<"|","u3">>, <<"u2">>, NL}
          \cup CS({"[[wiki0:a", "[[wiki007:a", "[[wiki+1:a", "[[wiki4294967295:a", "[[wiki4294967296:a", "[[wiki00000000000001:a",
                  "[[wiki99999999999999999999:a", "[[WIKI1:a", "[[Wn.x:a", "[[diary:+12345-01-01", "[[diary:99999999-01-01",
                  "[[diary:2021-2-3", "[[diary: 2021-02-28", "|k=\"", "|k=\"\"", "[[a|b|c|d", "[[ a", "[[a ", "| d ", "[[a\\b", "[[#", "[[//", "[[/", "[[.", "[[a//b"})
          \cup {C("[[wn.") \o <<"u2">> \o C(":a"), C("[[wn.x") \o <<"u4">> \o C(":") \o <<"u3">>, C("[[wiki") \o <<"u2">> \o C("1:a"),
                C("[[a#") \o <<"u3">>, C("[[") \o <<"us">> \o C("a"), C("|k=\"") \o <<"u2">> \o C("\""), C("|") \o <<"u2">> \o C("=\"v\""),
                C("[[diary:2021-02-28#") \o <<"u2">>, C("|{{") \o <<"u3">>, C("http://") \o <<"u2">>, C("{{") \o <<"u4">> \o C(".png"), CRLF, <<"\t">>}

(* blocks, by line *)
LBase(u) == {"a", "b c", "", "  ", "= a =", " == a ==", "=a= ", "= a", "=======a=======", "----", "---", " ----", "%title x", "%nohtml",
          "%date 2021-02-28", "%date x", "%template y", "%k v", "%% c", "> q", ">q", ">", "> ", "    i", "  > q",
          "- a", "  - b", "    - c", "1. a", "* a", "   a", "a::", "a:: b", ":: c", "|a|", "|-|", "| a | b |",
          "{{{", "{{{x y=\"z\"", "}}}", "{{$", "{{$%e%", "}}$", "  |a|", "[[a]]"}
ALines(u) == { Line(x) : x \in LBase(0) }
ALinesCr(u) == { LineCr(x) : x \in LBase(0) } \cup ALines(0)
ALinesCore(u) == { Line(x) : x \in {"a", "", "= a =", "----", "%title x", "> q", "    i", "- a", "  - b", "a:: b", ":: c",
                              "|a|", "|-|", "{{{", "}}}", "{{$", "}}$"} }

(* the same line several times over, so that nothing that counts is right by luck *)
Times(x, k) == FlattenSeq([i \in 1 .. k |-> x])
ARuns(u) == { Times(Line(x), k) : x \in {"> q", ">", "", "a", "- a", "  - b", "  b", "|a|b|", "|-|-|", ":: c", "t:: d", "    i"}, k \in {1, 3, 5} }
ARuns0(u) == { Times(Line(x), k) : x \in {"> q", "", "a", "- a", "  b", "|a|"}, k \in {1, 4} }
ARuns2(u) == { Times(Line(x), k) : x \in LBase(0), k \in {1, 2, 3, 5, 8, 13} }
             \cup { Times(C(x), k) : x \in {" ", "a", "=", "-", "|a", "|-", "> ", "- ", "*", "`", "$", "%", ":", ":t", "#", "1", "i", "{", "}", "[", "]", "~~"}, k \in {1, 2, 3, 5, 8, 13} }
             \cup { Times(<<x>>, k) : x \in {"\t", "u2", "us"}, k \in {1, 3} }

(* many of the same: sizes at which a number that is too small for what it counts overflows *)
Sizes == {12, 33, 140, 270}
Sized(T, k) == { C(x[1]) \o Times(C(x[2]), k) \o C(x[3]) \o NL : x \in T }
LongOf(T) == UNION { Sized(T, k) : k \in Sizes }
TLines(u) == { <<"", x \o "\n", "">> : x \in {"a", "> q", "    i", "= a =", "----", "%k v", "> q\n>", "%%x", "a\n"} }
             \cup { <<"= ", "a", " =">>, <<"=", "=", "">>, <<"%title ", "t ", "">>, <<"a\n", "\n", "b">>, <<"> a\n", ">\n", "> b">>, <<"> a\n", "\n", "> b">>, <<"", "-", "">>, <<"", " ", "a">>, <<"", " ", "= a =">>, <<"", " ", "    a">>, <<"a", " ", "b">>,
                     <<"= ", "a =", "=">> }
TLists(u) == { <<"", x \o "\n", "">> : x \in {"- a", "1. a", "i) a", "a. a", "- [X] a", "- a\n  b", "- a\n  - b", "- a\n\n"} }
             \cup { <<"- ", "a ", "\n  - b">>, <<"- a\n", "  b\n", "- c">>, <<"- a\n", "  - b\n", "- c">>, <<"", " ", "- a">>, <<"- a\n", " ", "- b">>, <<"- a\n  - b\n", "    - c\n", "  - d\n- e">>, <<"", "1", ". a">>, <<"", "i", ". a">> }
TTables(u) == { <<"", x \o "\n", "">> : x \in {"|a|b|", "|a|\n|-|", "|>|\\/|"} }
             \cup { <<"|", "a|", "">>, <<"|", "-|", "\n|a|">>, <<"|", "a|>|", "">>, <<"|a|\n", "|\\/|\n", "">>, <<"|a|\n|-|\n", "|b|\n", "">>, <<"|a", "b", "|">>, <<"|-", "-", "|\n|a|">>, <<"", " ", "|a|">>, <<"|a", " ", "|">> }
TFences(u) == { <<"{{{\n", "a\n", "}}}">>, <<"{{{c", " k=\"v\"", "\n}}}">>, <<"{{$\n", "a\n\n", "}}$">>, <<"{{{\n", "}}}x\n", "}}}">>, <<"{{{\na", "b", "\n}}}">>, <<"{{{\na", " ", "b\n}}}">>,
                <<"{{{\n", "\n", "}}}">>, <<"{{{", "c", "\na\n}}}">>, <<"{{$%", "e", "%\na\n}}$">>, <<"{{{\n", " ", "a\n}}}">>, <<"{{{\n", "a\n", "">>, <<"", "{{{\n", "}}}">> }
TDefs(u) == { <<"", x \o "\n", "">> : x \in {":: c", "t:: d", "a::\n:: b", "t::"} } \cup { <<"t::", " d", "">>, <<"t", "\n:: d", "">>, <<"t::\n", ":: d\n", "">>, <<"t", "u", ":: d">>, <<"t::\n", ":: d\n", "u:: e">> }
TInlines(u) == { <<"", x, "">> : x \in {"a", "*a* ", "`a` ", "$a$ ", ":t", "TODO ", "%%+a+%% ", "_a_", "|", "#", "*", "^a^ "} }
               \cup { <<"*", "a ", "*">>, <<"`", "a`b", "`">>, <<":", "t:", "">>, <<"%%+", "a\n", "+%%">>, <<"a ", "b", " *c*">>, <<"*", "a", "* b">>, <<"%%", "a", "">>, <<"$", "x ", "$">>, <<"a %%+", "+", "%% b">> }
TLinks(u) == { <<"", x, "">> : x \in {"[[a]]", "{{a}} ", "http://a "} }
             \cup { <<"[[", "a/", "b]]">>, <<"[[a", "#b", "]]">>, <<"[[a|", "d ", "]]">>, <<"{{a|b", "|k=\"v\"", "}}">>, <<"{{a||", " k=\"v\"", "}}">>, <<"[[", "a", "]]">>, <<"[[wiki", "0", "1:a]]">>, <<"[[wn.", "x", ":a]]">>, <<"http://", "a", "">>, <<"[[", "../", "a]]">> }
TAnchors(u) == { <<"", x, "">> : x \in {"= a =\n", "*a* ", ":a", "== a ==\n", "= a =\n== b ==\n=== c ===\n==== d ====\n===== e =====\n====== f ======\n", "= b =\n== a ==\n== a ==\n", "*a* :a:\n= a =\n", "= Contents =\n"} }
               \cup { <<"= ", "a", " =\n*b*">>, <<"= a =\n", "*b*\n", "== c ==">> }
TopicsOf(u) == { TLines(0), TLists(0), TTables(0), TFences(0), TDefs(0), TInlines(0), TLinks(0) }
Deeper(x, n) == FlattenSeq([k \in 1 .. n |-> Times(<<" ">>, k - 1) \o x \o NL])
ADeep(u) == { Deeper(C(x), k) : x \in {"- a", "1. a", "- [ ] a", "a. b"}, k \in {4, 6, 9} }
(* lists *)
AList(u) == { Line(i \o b \o "a") : i \in {"", " ", "  ", "    "}, b \in {"- ", "* ", "1. ", "i) ", "- [X] ", ""} }
         \cup { NL }
\* only what decides the tree
AListCore(u) == { Line(i \o b \o "a") : i \in {"", " ", "  "}, b \in {"- ", ""} } \cup {Line("  1. b")}
AList2(u) == { Line(i \o b \o t) : i \in {"", " ", "  ", "   ", "    ", "      ", "\t", "\t\t", " \t"},
                              b \in {"- ", "* ", "# ", "1. ", "12) ", "i) ", "iv. ", "I) ", "C. ", "c) ", "b) ", "B. ", "Z) ", "ab. ", "ca) ", "DE. ", "mix. ",
                                     "- [ ] ", "- [.] ", "1. [o] ", "- [O] ", "- [X] ", "- [-] ", "- [x] ", "- [X]", ""},
                              t \in {"a", "b c", "*d*", "- e", "x::", ":: y", "|c|", "{{{", "}}}", "> q"} }
          \cup { NL, Line("  ") }

\* tabs are as wide as any other character
ATabs(u) == { i \o Line(b \o "a") : i \in { <<>>, <<" ">>, <<"\t">>, <<" ", " ">>, <<"\t", " ">> }, b \in {"- ", ""} }
ATabs2(u) == { i \o Line(b \o "a") : i \in { <<>>, <<" ">>, <<"\t">>, <<" ", " ">>, <<"\t", " ">>, <<" ", "\t">>, <<"\t", "\t">>, <<" ", " ", " ", " ">> },
                                    b \in {"- ", "* ", "1. ", "i) ", "- [X] ", "", "> ", "t:: ", ":: ", "{{{", "}}}", "|a|", "= b ="} }
            \cup { NL, Line("  ") }

(* tables *)
ATable(u) == { Line(x) : x \in {"|a|", "|a|b|", "|-|", "|-|-|", "|:-|-:|", "|a|-|", "|\\/|>|", "| |", "|>|", " |a|", "a", ""} }
ATableTok(u) == CS({"|", "a", "-", "--", ":", ">", "\\/", " "}) \cup {NL}
ATable2(u) == CS({"|", "|a", "| b c ", "|-", "|--", "|:-", "|-:", "|:-:", "|>", "|\\/", "| > ", "|-5", "|>x", "|*a*", "|`x", "||", "|\n", "|\n ", " ", "a"})
           \cup {<<"|","u3">>, NL, CRLF}

(* fences *)
AFence(u) == { Line(i \o x) : i \in {"", "  "}, x \in {"{{{", "{{{c", "{{{k=\"v\"", "}}}", "}}} ", "{{$", "{{$%e%", "}}$", "a", "  b", ""} }
AFence2(u) == { Line(i \o x) : i \in {"", " ", "  ", "\t", "      "},
                         x \in {"{{{", "{{{c++", "{{{ k=\"v\"", "{{{c k=\"v\" l=\"w x\"", "{{{c d", "}}}", "}}} ", "}}}x", "{{$", "{{$%e%", "{{$ ", "{{$%", "}}$", "a",
                                "*b*", "", "- c", "%% x", "> y"} }
           \cup { <<"us">> \o Line("a"), <<" ", "us">> \o Line("b"), <<"u2">> \o NL, LineCr("{{{"), LineCr("  a"), LineCr("}}}") }

(* definition lists *)
ADef(u) == { Line(x) : x \in {"t::", "t:: d", "u::e", ":: f", "::f", " :: g", "a", "t ::", "*t*:: d", "- a", "", ":: *g*", "%%t::"} }
ADef2(u) == CS({"t", "::", " ", "*", "d", ":: ", "%%", "- ", "[[a", "]]"}) \cup {NL}

\* arbitrary characters
AChars(u) == CS({" ", "*", "_", "~", "`", "$", "^", ",", "[", "]", "{", "}", "|", "%", "+", "-", "#", "=", ":", ">", "\\", "/", "<", "&", "\"",
              "a", "T", "X", "1", "i", ".", ")", "(", "?", "!", "@", ";", "'"})
          \cup { NL, <<"\r">>, <<"\t">>, <<"u2">>, <<"u3">>, <<"u4">>, <<"us">>, <<"uw">>, <<"uc">>, <<"ul">>, <<"cl">>, <<"vt">>, <<"ff">>, <<"nul">> }
AMix(u) == AChars(0) \cup ALines(0) \cup AInline2(0) \cup ALink2(0) \cup ATable2(0) \cup AFence2(0) \cup ADef2(0)

\* pieces that are mostly well-formed, so that pages of many kinds of elements come up
RichInline(u) == CS({"a", "b c", "*d*", "_e_", "*_f_ g*", "~~h~~", "^2^", ",,i,,", "`c d`", "$m^2$", ":t1:t2:", "TODO", "DONE",
                  "[[p]]", "[[p q|r s]]", "[[/d/p#x|t]]", "[[d/]]", "[[wiki1:p]]", "[[wn.w:p|q]]", "[[diary:2021-02-28]]",
                  "[[diary:2021-02-28#u v|w]]", "{{i.png}}", "{{i.png|alt}}", "{{i.png|alt|k=\"v\"}}", "[[p|{{i.png}}]]",
                  "http://x.y/z", "%%k", "%%+l+%%", "<b>", "&", "\"", "'", "[[a<b|c&d]]", "*<*", "::", "|", "%", "]]", " "})
              \cup {<<"u2">>, <<"u4">>, NL, NL, CRLF}
RichStart(u) == { NL \o C(x) : x \in {"", "= H =", "== H ==", "=== K ===", "  = C =", "----", "- i", "- [X] i", "- [-] i", "  - j", "    1. k", "  1) l", "# m", "a. n",
                  "    quote", "> quote", "t:: d", "t::", ":: e", "|x|y|", "|-|-|", "|:-|-:|", "|>|z|", "|x|>|", "|\\/|w|", "  |v|",
                  "{{{rust k=\"v\"", "{{{", "  code <b> *x*", "}}}", "{{$", "{{$%al%", "}}$", "%title T", "%date 2021-02-28", "%template tp", "%nohtml", "%k v",
                  "   c", "%% cm"} }
ARich(u) == RichInline(u) \cup RichStart(u)
\* the same with other characters than ASCII in the place of some letters
WideOf(c) == CASE c = "x" -> "u4" [] c = "p" -> "u3" [] c = "c" -> "u2" [] c = "H" -> "u2" [] c = "q" -> "us" [] c = "j" -> "u3"
               [] c = "m" -> "uc" [] c = "v" -> "u2" [] c = "z" -> "ul" [] OTHER -> c
ARichU(u) == ARich(u) \cup { [k \in 1 .. Len(x) |-> WideOf(x[k])] : x \in ARich(u) }
\* whole elements that differ from another one in a single respect each
AVariants(u) == { Line(x) : x \in {"a", "b", ">", "> ", "*a*", "_a_", "~~a~~", "^a^", ",,a,,", "`a`", "$a$", ":a:", ":b:", ":a:b:", "*b*", "`b`", "$b$", "TODO", "DONE", "FIXME", "XXX",
     "%%a", "%%b", "%%+a+%%", "%%+b+%%", "aa", "_*a*_", "*_a_*", "a *a*", "*a* a", "*aa*",
     "=a= ", " =a=", "= a=", "=a =", "==a==", "=b= ", "----", "-----", "> a", "> b", "    a", "    b",
     "- a", "* a", "# a", "1. a", "1) a", "2. a", "a. a", "a) a", "A. a", "i. a", "I) a", "- b", "- [ ] a", "- [.] a", "- [X] a", "- [-] a", "- [o] a",
     "a:: b", "a:: c", "b:: b", "*a*:: b", "a:: *b*", "|a|", "|b|", " |a|", "|a|a|", "|a|>|", "|a|-|", "|-|a|", "|>|a|",
     "[[a]]", "[[b]]", "[[a|b]]", "[[a|c]]", "[[a#b]]", "[[a#c]]", "[[wiki1:a]]", "[[wiki2:a]]", "[[wn.a:a]]", "[[wn.b:a]]", "[[diary:2021-02-28]]", "[[diary:2021-02-27]]",
     "[[diary:2021-02-28|d]]", "[[diary:2021-02-28#d]]", "{{a}}", "{{b}}", "{{a|b}}", "{{a||k=\"v\"}}", "{{a||k=\"w\"}}", "{{a||l=\"v\"}}", "http://a", "http://b", "ftp://a",
     "[[a|{{b}}]]", "[[a|{{c}}]]", "%title a", "%title b", "%template a", "%date 2021-02-28", "%date 2021-02-27", "%nohtml", "%k a", "%k b", "%l a"} }
  \cup { Line(x[1]) \o Line(x[2]) \o Line(x[3]) : x \in { <<"{{{", "a", "}}}">>, <<"{{{", "b", "}}}">>, <<"{{{c", "a", "}}}">>, <<"{{{d", "a", "}}}">>, <<"{{{k=\"v\"", "a", "}}}">>,
       <<"{{{k=\"w\"", "a", "}}}">>, <<"{{{l=\"v\"", "a", "}}}">>, <<"{{$", "a", "}}$">>, <<"{{$", "b", "}}$">>, <<"{{$%c%", "a", "}}$">>, <<"{{$%d%", "a", "}}$">>,
       <<"> a", "> a", "">>, <<"> a", "", "> a">>, <<"- a", "- a", "">>, <<"- a", "  - a", "">>, <<"- a", "  a", "">>, <<"a", "a", "">>, <<"a", "", "a">>,
       <<"a:: b", ":: b", "">>, <<"a:: b", ":: c", "">>, <<"a:: b", "a:: b", "">>, <<"|a|", "|-|", "|b|">>, <<"|a|", "|:-|", "|b|">>, <<"|a|", "|-:|", "|b|">>, <<"|a|", "|:-:|", "|b|">>,
       <<"|a|", "|b|", "|-|">>, <<"|a|", "|\\/|", "">>, <<"%%+a", "b+%%", "">>, <<"%%+a", "c+%%", "">>, <<"- [X] a", "  - [ ] b", "">>} }
\* characters with a meaning in HTML, in every place where there can be text
EscText(u) == LET S == CS({"", "a", "<", ">", "&", "\"", "'", "<i>", "&lt;", "--", "-->", "--!>", "</a>", " "}) IN Cat(S, S)
EscPlaces(u) == { << C(x[1]), C(x[2]) >> : x \in { << "", "" >>, << "*", "*" >>, << "_*", "*_" >>, << "~~", "~~" >>, << "^", "^" >>, << "`", "`" >>, << "$", "$" >>,
      << ":x", "y:" >>, << "%%", "" >>, << "z %%+", "+%% w" >>, << "[[", "]]" >>, << "[[a/", "b]]" >>, << "[[p|", "]]" >>, << "[[p|k=\"", "\"]]" >>,
      << "[[p|d|k=\"", "\"]]" >>, << "[[p|d|k", "=\"v\"]]" >>, << "{{i|", "}}" >>, << "{{", ".png}}" >>,
      << "{{i||k=\"", "\"}}" >>, << "{{i||k", "=\"v\"}}" >>, << "[[p|{{i|", "}}]]" >>, << "[[#", "]]" >>, << "[[p#", "]]" >>, << "http://x/?", "" >>, << "[[http://x/", "]]" >>,
      << "[[wiki0:", "]]" >>, << "[[wn.w:", "|d]]" >>, << "[[wn.", ":p]]" >>, << "[[diary:2021-02-28#", "]]" >>, << "[[diary:2021-02-28|", "]]" >>, << "{{http://x/", "|d}}" >> } }
EscLines(u) == { << C(x[1]) \o x[2], x[3] \o C(x[4]) >> : x \in { << "= ", <<>>, <<>>, " =" >>, << "- ", <<>>, <<>>, "" >>, << "> ", <<>>, <<>>, "" >>, << "    ", <<>>, <<>>, "" >>, << "|", <<>>, <<>>, "|" >>,
      << "t", <<>>, <<>>, ":: d" >>, << "t:: ", <<>>, <<>>, "" >>, << "{{{", <<>>, NL, "a\n}}}" >>, << "{{{k", <<>>, <<>>, "=\"v\"\na\n}}}" >>, << "{{{c k=\"", <<>>, <<>>, "\"\na\n}}}" >>,
      << "{{{c\n", <<>>, NL, "}}}" >>, << "{{$%", <<>>, <<>>, "%\na\n}}$" >>, << "{{$", NL, NL, "}}$" >>, << "%%+", NL, NL, "+%%" >>, << "%title ", <<>>, <<>>, "" >> } }
AEsc(u) == { x[1] \o y \o x[2] \o NL : x \in EscPlaces(0) \cup EscLines(0), y \in EscText(0) }
\* pieces that get anchors, with equal, colliding and special names
AAnchor(u) == { Line(x) : x \in {"= a =", "= b =", "== a ==", "== b ==", "=== a ===", "=== c ===", "====== a ======", "*a*", "*b*", ":a:", ":a:b:", "= a-1 =", "*a-b*", "= A  b ="} }
AAnchor2(u) == AAnchor(0) \cup { Line(x) : x \in {"= *a* =", "== [[p|a]] ==", "== :a: ==", "= <b> & \"c\" =", "*<b>*", ":<b>:", "= Contents =", "== Contents ==", "  = a =", "=== *x* y ===", "= a =x",
      "- *a*", "|*a*|:a:|", "*a*:: *b*", ":A:", "*a-1*", ":a-1-1:", "== a b ==", "==== d ====", "= b =", "_*a*_ *a*", "= a-b =", "=== TODO ===", "== %%c ==", "= =", "= `a` =", "= $a$ ="} }
               \cup { C("= ") \o <<"u3">> \o Line(" ="), C("== ") \o <<"us">> \o Line(" =="), C("*") \o <<"uw">> \o Line("b*"), C("= ") \o <<"u4", "us">> \o Line("b =") }
\* every line of a block that is not closed by itself, with its ending
Alpha == CASE Which = "AInline" -> AInline(0)
           [] Which = "AInline2" -> AInline2(0)
           [] Which = "ADeco" -> ADeco(0)
           [] Which = "AComment" -> AComment(0)
           [] Which = "ALink" -> ALink(0)
           [] Which = "ALink2" -> ALink2(0)
           [] Which = "ALines" -> ALines(0)
           [] Which = "ALinesCr" -> ALinesCr(0)
           [] Which = "ALinesCore" -> ALinesCore(0)
           [] Which = "AList" -> AList(0)
           [] Which = "AListCore" -> AListCore(0)
           [] Which = "AList2" -> AList2(0)
           [] Which = "ATable" -> ATable(0)
           [] Which = "ATableTok" -> ATableTok(0)
           [] Which = "ATable2" -> ATable2(0)
           [] Which = "AFence" -> AFence(0)
           [] Which = "AFence2" -> AFence2(0)
           [] Which = "ADef" -> ADef(0)
           [] Which = "ADef2" -> ADef2(0)
           [] Which = "AChars" -> AChars(0)
           [] Which = "AMix" -> AMix(0)
           [] Which = "ARich" -> ARich(0)
           [] Which = "ARichU" -> ARichU(0)
           [] Which = "ARuns" -> ARuns(0)
           [] Which = "ARuns0" -> ARuns0(0)
           [] Which = "ARuns2" -> ARuns2(0)
           [] Which = "LLines" -> LongOf(TLines(0))
           [] Which = "LLists" -> LongOf(TLists(0)) \cup ADeep(0)
           [] Which = "LTables" -> LongOf(TTables(0))
           [] Which = "LFences" -> LongOf(TFences(0))
           [] Which = "LDefs" -> LongOf(TDefs(0))
           [] Which = "LInlines" -> LongOf(TInlines(0))
           [] Which = "LLinks" -> LongOf(TLinks(0))
           [] Which = "LTables40" -> Sized(TTables(0), 40)
           [] Which = "LAnchors" -> Sized(TAnchors(0), 12) \cup Sized(TAnchors(0), 33) \cup Sized({ <<"", x, "">> : x \in {"= a =\n", "*a* ", ":a"} }, 270)
           [] Which = "LAll" -> UNION { Sized(T, 40) : T \in TopicsOf(0) }
           [] Which = "ATabs" -> ATabs(0)
           [] Which = "ATabs2" -> ATabs2(0)
           [] Which = "AVariants" -> AVariants(0)
           [] Which = "AEsc" -> AEsc(0)
           [] Which = "AAnchor" -> AAnchor(0)
           [] Which = "AAnchor2" -> AAnchor2(0)

\* pieces that depend on where they are: the parts of a link in turn
GLink(k) ==
  CASE k = 1 -> CS({"[[", "{{"})
    [] k = 2 -> CS({"", "wiki1:", "wiki12:", "wn.x y:", "diary:", "/", "file:", "http://", "wiki:", "wn.:", "u@h:"})
    [] k = 3 -> CS({"a", "b c", "a/b.png", "a/", "2021-02-28", "2021-02-29", "2020-02-29", "%20x", "a?q", "", "x:y", "../d/e", "a%23b c"}) \cup {<<"u2">>}
    [] k = 4 -> CS({"", "#b", "#b#c d", "#"})
    [] k = 5 -> CS({"", "|d e", "|", "|{{i.png}}", "|{{http://x/i|alt}}", "|*d*"})
    [] k = 6 -> CS({"", "|k=\"v\"", "|k=\"v\" l=\"w x\"", "|k=v"})
    [] k = 7 -> CS({"]]", "}}", "]"})
    [] OTHER -> CS({" x", "]]", "}} "})
\* encoded characters in a link
GPct(k) ==
  CASE k = 1 -> CS({"[[", "{{"})
    [] k = 2 -> CS({"", "wiki1:", "wn.x%41:", "http://", "/d x"})
    [] k = 3 -> CS({"a%FFb", "%41%7Cx", "%C3%A9x y", "%C3", "a%23b", "%2541", "%E6%BC%A2a", "%7", "%5D%5D", "a%0Ab", "%3Fq", "a%2Fb", "%20", "%2e%2e/%61"}) \cup {<<"u3">> \o C("%20%41")}
    [] k = 4 -> CS({"", "#b%24c", "#%41 d", "/%42?x=%43", "#%FF%7C"})
    [] k = 5 -> CS({"", "|d%41", "|{{i%42.png}}", "|d|k%41=\"v%42\""})
    [] OTHER -> CS({"]]", "}}"})
\* the parts of a code or math block in turn
GFence(k) ==
  LET Ind == CS({"", " ", "   ", "\t"})
      Body == Cat(Ind, { Line(x) : x \in {"a", "", "b  c", "}}} x", "*d*"} } \cup {LineCr("a"), <<"us">> \o NL}) IN
  CASE k = 1 -> Cat(Ind, { Line(x) : x \in {"{{{", "{{{c++", "{{{ k=\"v\"", "{{{c k=\"v\" l=\"w x\"", "{{$", "{{$%e%", "{{$ %e%", "{{{c d"} })
    [] k \in {2, 3} -> Body
    [] OTHER -> Cat(Ind, CS({"}}}", "}}$", "}}} ", "}}$ \n", "}}}\nz"}))
\* a block opened at once, many lines, a close
GFenceSim(k) == IF k = 1 THEN GFence(1) ELSE IF k < 7 THEN GFence(2) ELSE GFence(4)
\* rows, most of them well-formed, of up to four cells
GTable(k) ==
  IF k % 4 = 0 THEN CS({"|\n", "|\n", "|\n  ", "|", "|b|\n"})
  ELSE CS({"|a", "| b c ", "|-", "|--", "|:-", "|-:", "|:-:", "|>", "| > ", "|\\/", "| ", "|*d*", "|[[a", "|`c`", "|-x"})
       \cup {<<"|", "u2">>}
AlphaAt(k) == CASE Which = "GLink" -> GLink(k)
                [] Which = "GPct" -> GPct(k)
                [] Which = "GFence" -> GFence(k)
                [] Which = "GFenceSim" -> GFenceSim(k)
                [] Which = "GTable" -> GTable(k)
                [] OTHER -> Alpha

Init == toks = <<>>
Next == Len(toks) < N /\ \E t \in AlphaAt(Len(toks) + 1) : toks' = Append(toks, t)
\* for simulation: one piece at random
NextSim == Len(toks) < N /\ toks' = Append(toks, RandomElement(AlphaAt(Len(toks) + 1)))

=============================================================================
