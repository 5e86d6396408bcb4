------------------------------- MODULE Macro -------------------------------
(***************************************************************************)
(* Pages written in a program: a literal, given to one of the macros that  *)
(* read vimwiki text at compile time.  What is typed (toks) is dressed up  *)
(* as literals are: blank lines around it, all lines indented; Read is the *)
(* text the macro takes the literal for, and the value of the macro is     *)
(* what the grammar reads from it.  The formatting macros put arguments    *)
(* into the texts of the page read from the literal.                       *)
(***************************************************************************)
EXTENDS Pages

VARIABLE dress   \* how the literal is written, see Dresses

(***************************** the literal *********************************)
RECURSIVE LinesFrom(_,_,_)
\* the lines of a text: a line feed ends one, and so do carriage return and line feed
LinesFrom(s, i, k) ==
  IF i > Len(s) THEN << >>
  ELSE LET z == Find1(s, i, Len(s)+1, "\n") IN
       IF z = 0 THEN << SubSeq(s, i, Len(s)) >>
       ELSE << SubSeq(s, i, IF z > i /\ s[z-1] = "\r" THEN z-2 ELSE z-1) >> \o LinesFrom(s, z+1, k)
SplitLines(s) == LinesFrom(s, 1, 0)
IsBlank(l) == \A k \in 1 .. Len(l) : l[k] \in UniWs
RECURSIVE IndentFrom(_,_)
IndentFrom(l, i) == IF i > Len(l) \/ l[i] \notin UniWs THEN i - 1 ELSE IndentFrom(l, i+1)
IndentOf(l) == IndentFrom(l, 1)
Joined(ls) == Flat([k \in 1 .. Len(ls) |-> IF k < Len(ls) THEN ls[k] \o NL ELSE ls[k]])

\* what the macro reads: the lines from the first to the last with content, without the
\* indentation they share, unless the macro leaves indentation alone
Full(ls) == { k \in 1 .. Len(ls) : ~IsBlank(ls[k]) }
Read(s, raw) ==
  LET ls == SplitLines(s)
      S  == Full(ls)
      a  == CHOOSE k \in S : \A j \in S : k <= j
      z  == CHOOSE k \in S : \A j \in S : j <= k
      m  == IF raw THEN 0 ELSE LET D == { IndentOf(ls[k]) : k \in S } IN CHOOSE d \in D : \A e \in D : d <= e
      Cut(l) == IF Len(l) > m THEN SubSeq(l, m+1, Len(l)) ELSE <<>>
  IN Joined([k \in 1 .. z-a+1 |-> Cut(ls[a+k-1])])

(***************************** how it is dressed ***************************)
\* << before, indentation of lines with content, of blank lines, after, kind of literal, raw >>
D(a, i, b, z, lit, raw) == << a, i, b, z, lit, raw >>
Plain == D(<<>>, <<>>, <<>>, <<>>, "esc", TRUE)
Dresses == { Plain,
  D(NL, C("    "), <<>>, NL \o C("  "), "raw", FALSE),
  D(C("  ") \o NL \o NL, <<"\t">>, <<"\t">>, NL \o NL, "esc", FALSE),
  D(CRLF, C(" "), C(" "), <<>>, "bytes", FALSE),
  D(NL, <<>>, <<>>, NL, "raw", TRUE) }
DressesMore == Dresses \cup {
  D(NL \o <<"us">> \o NL, <<"us", " ">>, <<>>, <<>>, "raw", FALSE),
  D(<<>>, C("  "), C("        "), C("  "), "bytes", TRUE),
  D(<<"\t">> \o CRLF, <<>>, C("   "), <<"ff">>, "bytes", FALSE) }
Dressed(s, d) ==
  LET ls == SplitLines(s) IN
  d[1] \o Joined([k \in 1 .. Len(ls) |-> (IF IsBlank(ls[k]) THEN d[3] ELSE d[2]) \o ls[k]]) \o d[4]
\* a raw literal holds no carriage return of its own
Literal(s, d) == IF d[5] = "raw" /\ (\E k \in 1 .. Len(s) : s[k] = "\r") THEN "esc" ELSE d[5]

(************************** the macros that apply **************************)
MacroOf(k) ==
  CASE k = "h" -> "header" [] k = "hr" -> "divider" [] k = "ph" -> "placeholder" [] k = "bq" -> "blockquote"
    [] k = "code_block" -> "code_block" [] k = "math_block" -> "math_block" [] k = "dl" -> "definition_list"
    [] k = "table" -> "table" [] k = "list" -> "list" [] k = "p" -> "paragraph"
    [] k = "kw" -> "keyword" [] k = "code" -> "code_inline" [] k = "math" -> "math_inline"
    [] k = "lc" -> "line_comment" [] k = "mlc" -> "multi_line_comment" [] k = "tags" -> "tags"
    [] k \in {"b", "i", "s", "sup", "sub"} -> "decorated_text"
    [] k \in {"wiki", "tr", "raw", "iwi", "iwn", "diary"} -> "link"
    [] OTHER -> "text"
\* << macro, which part of the page it gives >>; a macro for one kind of element applies when
\* the text is one such element from its first to its last character
Macros(u, p) ==
  LET One == Len(p) = 1 /\ p[1][1] # "stuck" /\ p[1][2] = 1 /\ p[1][3] = Len(u) + 1
      x == p[1]
      Alone == x[1] = "p" /\ Len(x[5]) = 1 /\ Len(x[5][1]) = 1 /\ x[5][1][1][2] = 1 /\ x[5][1][1][3] = Len(u) + 1
      y == x[5][1][1]
      Line1 == x[1] = "p" /\ Len(x[5]) = 1 /\ x[5][1][1][2] = 1
  IN << << "page", "page" >> >>
     \o (IF One THEN << << "block_element", "block" >>, << MacroOf(x[1]), "block" >> >> ELSE <<>>)
     \o (IF One /\ x[1] = "list" /\ Len(x[5]) = 1 THEN << << "list_item", "item" >> >> ELSE <<>>)
     \o (IF One /\ Line1 THEN << << "inline_element_container", "line" >> >> ELSE <<>>)
     \o (IF One /\ Alone THEN << << "inline_element", "inline" >>, << MacroOf(y[1]), "inline" >> >>
                              \o (IF y[1] \in {"lc", "mlc"} THEN << << "comment", "inline" >> >> ELSE <<>>)
         ELSE <<>>)

(****************************** formatting *********************************)
\* the arguments: four by position, two by name
Args == << C("cool"), C("42"), C("y"), C("3.5") >>
Named == [ x |-> C("a*b"), yy |-> <<"u3">> ]
ArgOf(w, n) == CASE w = <<>> -> Args[n+1]
                 [] w = C("0") -> Args[1] [] w = C("1") -> Args[2]
                 [] w = C("x") -> Named.x [] w = C("yy") -> Named.yy
RECURSIVE Blanks(_)
Blanks(n) == IF n = 0 THEN <<>> ELSE <<" ">> \o Blanks(n-1)
Padded(v, spec) ==
  CASE spec = <<>> -> v
    [] spec = C(":>6") -> Blanks(6 - Len(v)) \o v
    [] spec = C(":<6") -> v \o Blanks(6 - Len(v))
RECURSIVE Past(_,_)
\* past the braces that open a block or a transclusion
Past(s, i) == IF i <= Len(s) /\ s[i] \in {"{", "$"} THEN Past(s, i+1) ELSE i
RECURSIVE FillsFrom(_,_,_)
\* the holes of a text, from i on: where they are, and what is put in; n counts the ones
\* that take the next argument
FillsFrom(s, i, n) ==
  LET a == IF i > Len(s) THEN 0 ELSE Find1(s, i, Len(s)+1, "{")
      z == Find1(s, a, Len(s)+1, "}")
      c == Find1(s, a, z, ":")
      w == SubSeq(s, a+1, (IF c = 0 THEN z ELSE c) - 1)
      spec == IF c = 0 THEN <<>> ELSE SubSeq(s, c, z-1)
  IN IF a = 0 THEN <<>>
     ELSE IF s[a+1] \in {"{", "$"} THEN FillsFrom(s, Past(s, a), n)
     ELSE << << a, z+1, Padded(ArgOf(w, n), spec) >> >> \o FillsFrom(s, z+1, IF w = <<>> THEN n+1 ELSE n)
Fills(s) == FillsFrom(s, 1, 0)
Counted(s) == Cardinality({ i \in 1 .. Len(s) - 1 : s[i] = "{" /\ s[i+1] \in {"}", ":"} })
\* pieces with holes in every place where there can be text
Hole(u) == CS({"{}", "{0}", "{1}", "{x}", "{yy}", "{:>6}", "{0:<6}", "{x:>6}"})
HolePlaces(u) == { << C(x[1]), C(x[2]) >> : x \in { << "", "" >>, << "a ", " b" >>, << "*", "*" >>, << "_*c ", "*_" >>, << "~~", "~~" >>, << "^", "^" >>, << ",,", ",," >>,
     << "`", "`" >>, << "$", "$" >>, << ":t", ":" >>, << "%% ", "" >>, << "z %%+ ", "+%% w" >>, << "[[p|", "]]" >>, << "[[wn.w:p|see ", "]]" >>,
     << "[[wiki1:p|", " d]]" >>, << "[[diary:2021-02-28|", "]]" >>, << "[[p|d|k=\"", "\"]]" >>, << "= ", " =" >>, << "  == a *", "* ==" >>, << "- ", "" >>, << "1. [X] b ", "" >>, << "> ", "" >>,
     << "    q ", " r" >>, << "|", "|b|" >>, << "|b| c ", "|" >>, << "t ", ":: d" >>, << "t:: d ", "" >>, << "%title ", "" >>, << "%template t", "" >>, << "%k ", "" >>,
     << "{{{rust k=\"", "\"\ncode\n}}}" >>, << "{{{\nlet a = ", ";\n}}}" >>, << "{{$\nx_", "\n}}$" >>, << "{{$%a", "%\nx\n}}$" >> } }
\* (a colon ends a tag)
\* pieces with several holes
Holes2 == { Line(x) : x \in { "{}:: {}", ":: {}", "|{}|{}|", "|{} *{}*|\\/|{}|", "- {} *{}* [[p|{}]]", "  {}", "  - {}", "= {} _{}_ =", "_{} *{}*_ ~~{}~~",
                           "{0} {} {1} {}", "%k {} {}", "> {}", "> a {}", "`{}` ${}$ :{}:", "{} %% {}", "{x:>6} {} {yy} {:<6}", "", "3) {}" } }
AFormat(u) == { x[1] \o y \o x[2] \o NL : x \in HolePlaces(0) \ {<< C(":t"), C(":") >>}, y \in Hole(0) }
              \cup { C(":t") \o y \o Line(":") : y \in Hole(0) \ CS({"{:>6}", "{0:<6}", "{x:>6}"}) } \cup { NL, Line("plain *text*"), Line("[[p]] {{i.png}}"), Line("----") }
AFormatOne(u) == { x[1] \o y \o x[2] \o NL : x \in HolePlaces(0), y \in {C("{x}"), C("{0}")} } \cup { x[1] \o C("{}") \o x[2] \o NL : x \in HolePlaces(0) }

MAlpha == CASE Which = "AFormat" -> AFormat(0) [] Which = "AFormatOne" -> AFormatOne(0) [] Which = "AHoles" -> Holes2 [] Which = "AAll" -> AMix(0) \cup AList2(0) \cup ARichU(0) [] OTHER -> Alpha
Formats == Which \in {"AFormat", "AFormatOne", "AHoles"}

(******************************* behaviour *********************************)
MInit == toks = <<>> /\ dress \in (IF Formats THEN {Plain, D(NL, C("  "), <<>>, NL, "raw", FALSE)} ELSE Dresses)
MNext == Len(toks) < N /\ (\E t \in MAlpha : toks' = Append(toks, t)) /\ UNCHANGED dress
MInitSim == toks = <<>> /\ dress = <<>>
MNextSim == /\ Len(toks) < N
            /\ toks' = Append(toks, RandomElement(MAlpha))
            /\ dress' = IF dress = <<>> THEN RandomElement(IF Formats THEN Dresses ELSE DressesMore) ELSE dress
\* there are as many arguments as are taken
Enough(u) == Counted(u) <= Len(Args)
MacroOfPage(P(_)) ==
  IF Len(toks) < N THEN TRUE
  ELSE LET t == Dressed(TextOf, dress) IN
       IF Full(SplitLines(t)) = {} THEN TRUE
       ELSE LET u == Read(t, dress[6]) p == P(u) IN
            /\ Sound(u, p)
            \* reading what was read changes nothing
            /\ Read(u, dress[6]) = u
            /\ (Formats => Enough(u)) =>
                  PrintT(<<"E", ToJson([t |-> t, u |-> u, p |-> p, lit |-> Literal(t, dress), raw |-> dress[6], fmt |-> Formats,
                                        m |-> Macros(u, p), f |-> IF Formats THEN Fills(u) ELSE <<>>])>>)
EmitMacro == MacroOfPage(Page)
=============================================================================
