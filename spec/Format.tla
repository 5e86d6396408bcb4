------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* How a page is written as text again, under the options of the           *)
(* formatter: the state is what has been written so far, writing an        *)
(* element appends to it.  What is written reads as the same page again    *)
(* (Same), except where blanks are all that tell two readings apart        *)
(* (Sturdy says where not).                                                *)
(***************************************************************************)
EXTENDS Html

(******************************** options **********************************)
Rep(x, k) == FlattenSeq([j \in 1 .. k |-> x])
Opt0 == [ sep |-> TRUE, ind |-> <<" ", " ", " ", " ">>, bqInd |-> FALSE, bqTrim |-> TRUE, cPad |-> TRUE, cTrim |-> TRUE,
          dlOwn |-> FALSE, dlTerm |-> TRUE, dlDef |-> TRUE, hPad |-> TRUE, hTrim |-> TRUE, pTrim |-> TRUE, tPad |-> TRUE,
          todo |-> [x \in {" ", ".", "o", "O", "X", "-"} |-> x] ]
Todo2 == [x \in {" ", ".", "o", "O", "X", "-"} |->
           CASE x = " " -> "_" [] x = "." -> "u2" [] x = "o" -> "2" [] x = "O" -> "3" [] x = "X" -> "u4" [] x = "-" -> " "]
OptOf(name) ==
  CASE name = "default" -> Opt0
    [] name = "tab" -> [Opt0 EXCEPT !.ind = <<"\t">>, !.dlOwn = TRUE]
    [] name = "bare" -> [Opt0 EXCEPT !.sep = FALSE, !.cPad = FALSE, !.hPad = FALSE, !.tPad = FALSE, !.ind = <<" ">>]
    [] name = "kept" -> [Opt0 EXCEPT !.bqTrim = FALSE, !.cTrim = FALSE, !.dlTerm = FALSE, !.dlDef = FALSE, !.hTrim = FALSE, !.pTrim = FALSE]
    [] name = "quote" -> [Opt0 EXCEPT !.bqInd = TRUE, !.todo = Todo2, !.ind = <<" ", " ">>]
\* are pages asked to stay what they are under these options?
Faithful(name) == name \in {"default", "tab"}

(********************************* writing *********************************)
TrimStart(x) == SubSeq(x, TrimL(x, 1), Len(x))
TrimStop(x) == SubSeq(x, 1, TrimR(x, Len(x)))
\* adding a piece, with or without the blanks around it
Put(acc, trim, piece) == IF trim THEN TrimStop(acc \o TrimStart(piece)) ELSE acc \o piece
AtStart(acc) == acc = <<>> \/ acc[Len(acc)] = "\n"
Ind(acc, lv, o) == IF AtStart(acc) THEN acc \o Rep(o.ind, lv) ELSE acc
Dec(n) == C(ToString(n))

\* bullets
RECURSIVE Alphabetic(_)
Alphabetic(n) == IF n < 26 THEN << C("abcdefghijklmnopqrstuvwxyz")[n+1] >>
                 ELSE Alphabetic((n \div 26) - 1) \o << C("abcdefghijklmnopqrstuvwxyz")[(n % 26) + 1] >>
RECURSIVE RomanOf(_,_)
Romans == << <<1000, "m">>, <<900, "cm">>, <<500, "d">>, <<400, "cd">>, <<100, "c">>, <<90, "xc">>, <<50, "l">>, <<40, "xl">>,
             <<10, "x">>, <<9, "ix">>, <<5, "v">>, <<4, "iv">>, <<1, "i">> >>
RomanOf(n, k) == IF n = 0 THEN <<>> ELSE IF n >= Romans[k][1] THEN C(Romans[k][2]) \o RomanOf(n - Romans[k][1], k) ELSE RomanOf(n, k+1)
UpperOf == [c \in Letters |-> CHOOSE u \in Uppers : LowerOf[u] = c]
Up(x) == [k \in 1 .. Len(x) |-> UpperOf[x[k]]]
Prefix(x, pos) ==
  (CASE x[5] \in {"-", "*", "#"} -> << x[5] >>
     [] x[5] = "1" -> Dec(pos)
     [] x[5] = "a" -> Alphabetic(pos - 1)
     [] x[5] = "A" -> Up(Alphabetic(pos - 1))
     [] x[5] = "i" -> RomanOf(pos, 1)
     [] x[5] = "I" -> Up(RomanOf(pos, 1)))
  \o (IF x[6] = "" THEN <<>> ELSE << x[6] >>)

\* targets: what gets escaped when a link is read is written plainly, any other escape stays
Plainly == ("%20" :> " ") @@ ("%22" :> "\"") @@ ("%3C" :> "<") @@ ("%3E" :> ">") @@ ("%60" :> "`") @@
           ("%3c" :> "<") @@ ("%3e" :> ">")
WideText == { << PctOf[w], w >> : w \in Wide }
Esc3(s, k) == s[k] \o s[k+1] \o s[k+2]
RECURSIVE Readable(_,_,_)
Readable(u, k, frag) ==
  IF k > Len(u) THEN <<>>
  ELSE IF u[k] # "%" THEN << u[k] >> \o Readable(u, k+1, frag \/ u[k] = "#")
  ELSE IF Esc3(u, k) \in DOMAIN Plainly THEN << Plainly[Esc3(u, k)] >> \o Readable(u, k+3, frag)
  ELSE IF Esc3(u, k) = "%23" /\ frag THEN <<"#">> \o Readable(u, k+3, frag)
  ELSE LET Ws == { w \in WideText : M(u, k, Len(u) + 1, C(w[1])) } IN
       IF Ws # {} THEN LET w == CHOOSE w \in Ws : TRUE IN << w[2] >> \o Readable(u, k + Len(w[1]), frag)
       ELSE SubSeq(u, k, k+2) \o Readable(u, k+3, frag)
UriText(s, r) == Readable(EncUri(s, r), 1, FALSE)

RECURSIVE DescText(_,_)
DescText(s, ds) == IF ds = NIL THEN <<>>
                   ELSE <<"|">> \o (IF ds[1] = "text" THEN Rng(s, <<ds[2], ds[3]>>)
                                    ELSE <<"{","{">> \o UriText(s, ds[2]) \o DescText(s, ds[3]) \o <<"}","}">>)
\* the order of names is that of their bytes
Order == C(" !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~")
         \o <<"cl", "us", "u2", "uc", "ul", "uw", "u3", "u4">>
RankOf(c) == IF c \in {"nul", "\t", "vt", "ff", "\r"} THEN (CASE c = "nul" -> -5 [] c = "\t" -> -4 [] c = "vt" -> -3 [] c = "ff" -> -2 [] c = "\r" -> -1)
             ELSE CHOOSE k \in 1 .. Len(Order) : Order[k] = c
RECURSIVE Precedes(_,_,_)
Precedes(x, y, k) == IF k > Len(x) THEN k <= Len(y) ELSE IF k > Len(y) THEN FALSE
                   ELSE IF x[k] = y[k] THEN Precedes(x, y, k+1) ELSE RankOf(x[k]) < RankOf(y[k])
\* the last property of each name, by name
SortedProps(s, ps) == SortSeq([k \in 1 .. Len(PropsOf(s, ps)) |-> LET q == PropsOf(s, ps)[k][2] IN << Rng(s, <<q[1], q[2]>>), Rng(s, <<q[3], q[4]>>) >>],
                              LAMBDA x, y : Precedes(x[1], y[1], 1))
PropsText(s, ps) == LET q == SortedProps(s, ps) IN
                    JoinWith([k \in 1 .. Len(q) |-> q[k][1] \o <<"=", "\"">> \o q[k][2] \o <<"\"">>], <<" ">>)
PropsPart(s, ds, ps) == IF ps = NIL THEN <<>> ELSE (IF ds = NIL THEN <<"|">> ELSE <<>>) \o <<"|">> \o PropsText(s, ps)

FragKept == FragChar \cup {"%"}
Pct2(c) == CASE c = "[" -> "%5B" [] c = "]" -> "%5D" [] c = "\\" -> "%5C" [] c = "^" -> "%5E" [] c = "{" -> "%7B" [] c = "}" -> "%7D"
             [] c = "%" -> "%25" [] OTHER -> Pct(c)
\* an anchor as part of a URI
FragText(s, a, z) ==
  Flat([k \in 1 .. z-a |-> LET i == a + k - 1 IN
     IF s[i] = "%" THEN (IF i + 2 < z /\ s[i+1] \in Hex /\ s[i+2] \in Hex THEN <<"%">> ELSE C("%25"))
     ELSE IF s[i] \in FragChar \cup {"#"} THEN << s[i] >> ELSE C(Pct2(s[i]))])
\* (its parts joined by #, one escaped # between them too)
RECURSIVE Hashes(_,_)
Hashes(x, k) == IF k > Len(x) THEN <<>>
                ELSE IF M(x, k, Len(x)+1, <<"%","2","3">>) THEN <<"#">> \o Hashes(x, k+3) ELSE << x[k] >> \o Hashes(x, k+1)
AnchorText(s, anc) == IF anc = NIL THEN <<>> ELSE <<"#">> \o Hashes(FragText(s, anc[1], anc[2]), 1)

RECURSIVE InlineText(_,_,_,_), InlinesText(_,_,_,_)
DelimOf(k) == CASE k = "b" -> <<"*">> [] k = "i" -> <<"_">> [] k = "s" -> <<"~","~">> [] k = "sup" -> <<"^">> [] k = "sub" -> <<",",",">>
InlineText(s, x, lv, o) ==
  LET k == x[1]
      pad == IF o.cPad THEN <<" ">> ELSE <<>>
      Com(y) == IF o.cTrim THEN Trim(y) ELSE y IN
  CASE k = "t" -> SubSeq(s, x[2], x[3]-1)
    [] k = "kw" -> C(x[5])
    [] k = "code" -> <<"`">> \o Rng(s, <<x[5], x[6]>>) \o <<"`">>
    [] k = "math" -> <<"$">> \o Rng(s, <<x[5], x[6]>>) \o <<"$">>
    [] k = "tags" -> <<":">> \o Flat([j \in 1 .. Len(x[5]) |-> Rng(s, x[5][j]) \o <<":">>])
    [] k \in {"b", "i", "s", "sup", "sub"} -> DelimOf(k) \o InlinesText(s, x[5], lv, o) \o DelimOf(k)
    [] k = "lc" -> PP \o pad \o Com(Rng(s, <<x[5], x[6]>>))
    [] k = "mlc" -> <<"%","%","+">> \o pad
                    \o JoinWith([j \in 1 .. Len(x[5]) |-> Com(Rng(s, x[5][j]))], NL \o Rep(o.ind, lv)) \o pad \o <<"+","%","%">>
    [] k = "wiki" -> <<"[","[">> \o UriText(s, x[5]) \o DescText(s, x[6]) \o PropsPart(s, x[6], x[7]) \o <<"]","]">>
    [] k = "tr" -> <<"{","{">> \o UriText(s, x[5]) \o DescText(s, x[6]) \o PropsPart(s, x[6], x[7]) \o <<"}","}">>
    [] k = "iwi" -> LET b == SkipZeros(s, x[5][1], x[5][2]) IN
                    C("[[wiki") \o (IF b = x[5][2] THEN <<"0">> ELSE SubSeq(s, b, x[5][2]-1)) \o <<":">> \o UriText(s, x[6]) \o DescText(s, x[7]) \o <<"]","]">>
    [] k = "iwn" -> C("[[wn.") \o Rng(s, x[5]) \o <<":">> \o UriText(s, x[6]) \o DescText(s, x[7]) \o <<"]","]">>
    [] k = "diary" -> C("[[diary:") \o DateChars(x[5]) \o AnchorText(s, x[6]) \o DescText(s, x[7]) \o <<"]","]">>
    [] k = "raw" -> EncUri(s, x[5])
InlinesText(s, xs, lv, o) == Flat([k \in 1 .. Len(xs) |-> InlineText(s, xs[k], lv, o)])

(* blocks: what has been written, and then the block *)
ByteLen(x) == FoldSeq(LAMBDA c, n : n + (CASE c \in {"u2", "us", "uc", "cl"} -> 2 [] c \in {"u3", "uw", "ul"} -> 3 [] c = "u4" -> 4 [] OTHER -> 1), 0, x)
CellText(s, c, lv, o) ==
  LET y == CASE c[1] = "cell" -> InlinesText(s, c[5], lv, o) [] c[1] = "left" -> <<">">> [] c[1] = "up" -> <<"\\","/">> [] OTHER -> <<>>
      l == TrimL(y, 1) > 1  r == TrimR(y, Len(y)) < Len(y) IN
  IF ~o.tPad THEN y
  ELSE IF y = <<>> THEN <<" ">>
  ELSE (IF l THEN <<>> ELSE <<" ">>) \o y \o (IF r THEN <<>> ELSE <<" ">>)
MinAlign(c) == IF c[1] # "align" THEN 0 ELSE CASE c[5] = "none" -> 1 [] c[5] \in {"left", "right"} -> 2 [] c[5] = "center" -> 3
Max0(S) == IF S = {} THEN 0 ELSE SetMax(S)
Dashes(k) == Rep(<<"-">>, k)
TableText(s, x, acc, lv, o) ==
  LET rows == x[6]
      Col(k) == { r \in 1 .. Len(rows) : k <= Len(rows[r]) }
      Width(k) == Max0({ IF rows[r][k][1] = "align" THEN MinAlign(rows[r][k]) ELSE ByteLen(CellText(s, rows[r][k], lv, o)) : r \in Col(k) })
      OneCell(c, w) ==
        IF c[1] = "align" THEN CASE c[5] = "none" -> Dashes(w) [] c[5] = "left" -> <<":">> \o Dashes(w-1)
                                 [] c[5] = "right" -> Dashes(w-1) \o <<":">> [] c[5] = "center" -> <<":">> \o Dashes(w-2) \o <<":">>
        ELSE LET y == CellText(s, c, lv, o) IN y \o Rep(<<" ">>, w - ByteLen(y))
      RowText(r) == (IF x[5] THEN <<" "," "," "," ">> ELSE <<>>) \o <<"|">>
                    \o Flat([k \in 1 .. Len(rows[r]) |-> OneCell(rows[r][k], Width(k)) \o <<"|">>]) \o NL
  IN FoldLeft(LAMBDA a, r : Ind(a, lv, o) \o RowText(r), acc, [r \in 1 .. Len(rows) |-> r])

BlankText(x) == \A k \in 1 .. Len(x) : x[k] \in UniWs
LineOf(s, r) == Rng(s, r)
QuoteText(s, x, acc, lv, o) ==
  LET in == o.bqInd /\ lv = 0 /\ \A k \in 1 .. Len(x[5]) : ~BlankText(LineOf(s, x[5][k])) IN
  FoldLeft(LAMBDA a, r : Put(Ind(a, lv, o) \o (IF in THEN <<" "," "," "," ">> ELSE <<">", " ">>), o.bqTrim, LineOf(s, r)) \o NL, acc, x[5])
\* the blocks with lines that are written as they are
Verbatim(s, ls, acc, lv, o, open, close) ==
  Ind(FoldLeft(LAMBDA a, r : Ind(a, lv, o) \o LineOf(s, r) \o NL, Ind(acc, lv, o) \o open \o NL, ls), lv, o) \o close \o NL
CodeText(s, x, acc, lv, o) ==
  Verbatim(s, x[7], acc, lv, o,
           <<"{","{","{">> \o LineOf(s, IF x[5] = <<>> THEN <<1, 1>> ELSE x[5])
             \o (IF x[6] = NIL THEN <<>> ELSE (IF x[5] = <<>> THEN <<>> ELSE <<" ">>) \o PropsText(s, x[6])), <<"}","}","}">>)
MathText(s, x, acc, lv, o) ==
  Verbatim(s, x[6], acc, lv, o, <<"{","{","$">> \o (IF x[5] = <<>> THEN <<>> ELSE <<"%">> \o LineOf(s, x[5]) \o <<"%">>), <<"}","}","$">>)
DefText(s, x, acc, lv, o) ==
  FoldLeft(LAMBDA a, it :
    LET t == Put(Ind(a, lv, o), o.dlTerm, InlinesText(s, it[1][5], lv, o)) \o <<":",":">> IN
    FoldLeft(LAMBDA b, k :
      Put(IF k = 1 /\ ~o.dlOwn THEN b \o <<" ">> ELSE Ind(b, lv, o) \o <<":",":"," ">>, o.dlDef, InlinesText(s, it[2][k][5], lv, o)) \o NL,
      IF o.dlOwn \/ it[2] = <<>> THEN t \o NL ELSE t, [k \in 1 .. Len(it[2]) |-> k]),
    acc, x[5])
HeaderText(s, x, acc, o) ==
  LET pad == IF o.hPad THEN <<" ">> ELSE <<>> m == Rep(<<"=">>, x[5]) IN
  Put(acc \o (IF x[6] THEN <<" "," "," "," ">> ELSE <<>>) \o m \o pad, o.hTrim, InlinesText(s, x[7], 0, o)) \o pad \o m \o NL
PlaceholderText(s, x) ==
  <<"%">> \o (IF x[5] = "other" THEN LineOf(s, x[6]) ELSE C(x[5]))
  \o (CASE x[5] = "nohtml" -> <<>> [] x[5] = "date" -> <<" ">> \o DateChars(x[7]) [] OTHER -> <<" ">> \o LineOf(s, x[7])) \o NL
ParaText(s, x, acc, lv, o) ==
  FoldLeft(LAMBDA a, l : Put(Ind(a, lv, o), o.pTrim, InlinesText(s, l, lv, o)) \o NL, acc, x[5])

RECURSIVE BlockText(_,_,_,_,_)
BlockText(s, x, acc, lv, o) ==
  LET k == x[1] IN
  CASE k = "h" -> HeaderText(s, x, acc, o)
    [] k = "hr" -> acc \o Dashes(4) \o NL
    [] k = "ph" -> acc \o PlaceholderText(s, x)
    [] k = "bq" -> QuoteText(s, x, acc, lv, o)
    [] k = "dl" -> DefText(s, x, acc, lv, o)
    [] k = "table" -> TableText(s, x, acc, lv, o)
    [] k = "code_block" -> CodeText(s, x, acc, lv, o)
    [] k = "math_block" -> MathText(s, x, acc, lv, o)
    [] k = "p" -> ParaText(s, x, acc, lv, o)
    [] k = "list" ->
       FoldLeft(LAMBDA a, n :
         LET it == x[5][n] IN
         FoldLeft(LAMBDA b, y : BlockText(s, y, b, lv + 1, o),
                  Ind(a, lv, o) \o Prefix(it, n) \o <<" ">>
                    \o (IF it[7] = "" THEN <<>> ELSE <<"[", o.todo[it[7]], "]", " ">>), it[8]),
         acc, [n \in 1 .. Len(x[5]) |-> n])
\* the text of a page
TextOfPage(s, p, o) ==
  FoldLeft(LAMBDA a, k : BlockText(s, p[k], a, 0, o) \o (IF o.sep /\ k < Len(p) THEN NL ELSE <<>>), <<>>, [k \in 1 .. Len(p) |-> k])

(***************************** same page ***********************************)
\* what an element says, whatever the positions and the blanks around it
RECURSIVE Say(_,_), Says(_,_)
Desc2(s, ds) == IF ds = NIL THEN NIL ELSE IF ds[1] = "text" THEN << "text", Rng(s, <<ds[2], ds[3]>>) >> ELSE << "tr", UriText(s, ds[2]) >>
Say(s, x) ==
  LET k == x[1] IN
  CASE k = "t" -> << k, SubSeq(s, x[2], x[3]-1) >>
    [] k = "kw" -> << k, x[5] >>
    [] k \in {"code", "math"} -> << k, Rng(s, <<x[5], x[6]>>) >>
    [] k = "tags" -> << k, [j \in 1 .. Len(x[5]) |-> Rng(s, x[5][j])] >>
    [] k = "lc" -> << k, Trim(Rng(s, <<x[5], x[6]>>)) >>
    [] k = "mlc" -> << k, IF x[5] = <<>> THEN << <<>> >> ELSE [j \in 1 .. Len(x[5]) |-> Trim(Rng(s, x[5][j]))] >>
    [] k \in {"b", "i", "s", "sup", "sub"} -> << k, [j \in 1 .. Len(x[5]) |-> Say(s, x[5][j])] >>
    [] k \in {"wiki", "tr"} -> << k, EncUri(s, x[5]), Desc2(s, x[6]), IF x[7] = NIL THEN NIL ELSE SortedProps(s, x[7]) >>
    [] k \in {"iwi", "iwn"} -> << k, IF k = "iwi" THEN SubSeq(s, SkipZeros(s, x[5][1], x[5][2]), x[5][2]-1) ELSE Rng(s, x[5]), EncUri(s, x[6]), Desc2(s, x[7]) >>
    [] k = "diary" -> << k, x[5], AnchorText(s, x[6]), Desc2(s, x[7]) >>
    [] k = "raw" -> << k, EncUri(s, x[5]) >>
    [] k = "h" -> << k, x[5], x[6], Says(s, x[7]) >>
    [] k = "hr" -> << k >>
    [] k = "ph" -> << k, x[5], IF x[5] = "other" THEN Rng(s, x[6]) ELSE <<>>, IF x[5] = "date" THEN x[7] ELSE IF x[5] = "nohtml" THEN <<>> ELSE Rng(s, x[7]) >>
    [] k = "bq" -> << k, [j \in 1 .. Len(x[5]) |-> Trim(Rng(s, x[5][j]))] >>
    [] k \in {"term", "def"} -> << k, Says(s, x[5]) >>
    [] k = "dl" -> << k, [j \in 1 .. Len(x[5]) |-> << Say(s, x[5][j][1]), [n \in 1 .. Len(x[5][j][2]) |-> Say(s, x[5][j][2][n])] >>] >>
    [] k = "code_block" -> << k, IF x[5] = <<>> THEN <<>> ELSE Rng(s, x[5]), IF x[6] = NIL THEN NIL ELSE SortedProps(s, x[6]), [j \in 1 .. Len(x[7]) |-> Rng(s, x[7][j])] >>
    [] k = "math_block" -> << k, IF x[5] = <<>> THEN <<>> ELSE Rng(s, x[5]), [j \in 1 .. Len(x[6]) |-> Rng(s, x[6][j])] >>
    [] k = "cell" -> << k, Says(s, x[5]) >>
    [] k \in {"up", "left"} -> << k >>
    [] k = "align" -> << k, x[5] >>
    [] k = "table" -> << k, x[5], [j \in 1 .. Len(x[6]) |-> [n \in 1 .. Len(x[6][j]) |-> Say(s, x[6][j][n])]] >>
    [] k = "list" -> << k, [j \in 1 .. Len(x[5]) |-> Say(s, x[5][j])] >>
    [] k = "li" -> << k, x[5], x[6], x[7], [j \in 1 .. Len(x[8]) |-> Say(s, x[8][j])] >>
    [] k = "p" -> << k, [j \in 1 .. Len(x[5]) |-> Says(s, x[5][j])] >>
\* inline elements without the blanks before and after them
RECURSIVE Unblank(_,_)
Unblank(ys, first) ==
  IF ys = <<>> THEN ys
  ELSE LET k == IF first THEN 1 ELSE Len(ys) y == ys[k] IN
       IF y[1] # "t" THEN ys
       ELSE LET t == IF first THEN TrimStart(y[2]) ELSE TrimStop(y[2]) IN
            IF t # <<>> THEN [ys EXCEPT ![k] = << "t", t >>]
            ELSE Unblank(IF first THEN Tail(ys) ELSE FrontOf(ys), first)
Says(s, xs) == Unblank(Unblank([k \in 1 .. Len(xs) |-> Say(s, xs[k])], TRUE), FALSE)
Same(s, p, f, q) == [k \in 1 .. Len(p) |-> Say(s, p[k])] = [k \in 1 .. Len(q) |-> Say(f, q[k])]

\* nothing of the page hangs on blanks only:
\* no two quotes follow each other, nor two lists (or what starts like an item) within an item; no paragraph, quote or
\* definition list is one but for the blanks around its parts (or before its lines)
SturdyBlock(P(_), s, x) ==
  LET t == BlockText(s, x, <<>>, 0, Opt0) q == P(t) IN Len(q) = 1 /\ Say(t, q[1]) = Say(s, x)
OddBlank(c) == c \in {"us", "uw", "ul", "cl", "vt", "ff", "\r"}
NoOddBlanks(s) == \A k \in 1 .. Len(s) : OddBlank(s[k]) => (s[k] = "\r" /\ k < Len(s) /\ s[k+1] = "\n")
\* definition lists whose first term starts like a list item
Bulleted(s, x) ==
  /\ x[1] = "dl"
  /\ LET t == Trim(InlinesText(s, x[5][1][1][5], 0, Opt0)) b == Find1(t, 1, Len(t) + 1, " ") IN
     b > 1 /\ (t[b-1] \in {".", ")"} \/ (b = 2 /\ t[1] \in {"-", "*", "#"}))
Sturdy(P(_), s, p) ==
  /\ NoOddBlanks(s)
  /\ \A k \in 1 .. Len(p) - 1 : ~(p[k][1] = "bq" /\ p[k+1][1] = "bq")
  /\ \A x \in AllOf(p) : /\ (x[1] \in {"p", "bq", "dl"} => SturdyBlock(P, s, x))
                          /\ (x[1] = "li" => \A k \in 1 .. Len(x[8]) - 1 : ~(x[8][k][1] = "list" /\ (x[8][k+1][1] = "list" \/ Bulleted(s, x[8][k+1]))))

FmtOk(P(_), s, p, f, o) == LET q == P(f) IN Same(s, p, f, q) /\ TextOfPage(f, q, o) = f
EmitFmtOf(P(_), T1(_,_,_), Ok(_,_,_,_), St(_,_), OName(_), name) ==
  LET s == TextOf p == P(s) o == OName(name) f == T1(s, p, o)
      rt == Faithful(name) /\ St(s, p) IN
  /\ rt => Ok(s, p, f, o)
  /\ PrintT(<<"E", ToJson([t |-> s, p |-> p, f |-> f, o |-> name, rt |-> rt])>>)
OkP(s, p, f, o) == FmtOk(Page, s, p, f, o)
StP(s, p) == Sturdy(Page, s, p)
EmitFmt == EmitFmtOf(Page, TextOfPage, OkP, StP, OptOf, Conf)

(******************************* long lists ********************************)
\* the state is a list of n items of one kind: << bullet, suffix, n >>
LStyles == << <<"1", ".">>, <<"1", ")">>, <<"a", ".">>, <<"A", ")">>, <<"i", ")">>, <<"I", ".">> >>
LFirst == [k \in {"1", "a", "A", "i", "I"} |-> CASE k = "1" -> "1" [] k = "a" -> "b" [] k = "A" -> "B" [] k = "i" -> "i" [] k = "I" -> "I"]
LSizes == (1 .. 30) \cup (50 .. 60) \cup (76 .. 110) \cup {399, 400, 499, 500, 701, 702, 703, 704, 899, 900, 999, 1000}
LNInit == toks = <<>>
LNNext == toks = <<>> /\ \E k \in 1 .. Len(LStyles), n \in LSizes : n <= N /\ toks' = << LStyles[k], n >>
LongText(st, n, Num(_)) == Flat([j \in 1 .. n |-> Num(j) \o <<" ", "x", "\n">>])
EmitLong ==
  toks # <<>> =>
  LET st == toks[1] n == toks[2]
      t == LongText(st, n, LAMBDA j : << LFirst[st[1]], st[2] >>)
      f == LongText(st, n, LAMBDA j : Prefix(<<0, 0, 0, 0, st[1], st[2]>>, j)) IN
  PrintT(<<"E", ToJson([t |-> t, f |-> f, o |-> Conf, rt |-> TRUE])>>)

(******************** pages known not to read back as such *****************)
KnownTexts == { C("> a\n\n    b\n"), C("    a\n\n    b\n"), C(" ----\n"), C("---- \n"), C(" %title x\n"), C("|a| \n"),
                C("- a\n  - b\n - c\n"), C("    :: a\n") }
KInit == \E t \in KnownTexts : toks = << t >>
KNext == FALSE /\ UNCHANGED toks
EmitKnownOf(P(_), T1(_,_,_), OName(_)) ==
  LET s == TextOf p == P(s) f == T1(s, p, OName("default")) IN
  PrintT(<<"E", ToJson([t |-> s, f |-> f, o |-> "default", rt |-> TRUE])>>)
EmitKnown == EmitKnownOf(Page, TextOfPage, OptOf)
=============================================================================
