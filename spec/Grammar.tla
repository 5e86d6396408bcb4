------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The vimwiki language: an executable specification of how a text is read *)
(* as a page.  A text is a sequence `s` of characters (one-character       *)
(* strings, or a longer name for a character outside ASCII, see Lex).      *)
(* Every operator reads from position i (1-based) up to, not including, e. *)
(* It yields NIL when the text does not start with such an element, or     *)
(* << next, value >>.                                                      *)
(*                                                                         *)
(* Values are tuples << kind, a, z, d, ... >>: the element was read from   *)
(* the characters a .. z-1 and lies at nesting depth d.  Texts inside      *)
(* values are ranges << a, z >> of the source.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NIL == <<>>
Nat0 == 0

Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q",
            "r","s","t","u","v","w","x","y","z"}
Uppers  == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q",
            "R","S","T","U","V","W","X","Y","Z"}
Digits  == {"0","1","2","3","4","5","6","7","8","9"}
Hex     == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
Blank   == {" ", "\t"}
AsciiWs == {" ", "\t", "\n", "\r", "ff"}
\* characters outside ASCII: u2 = e-acute (2 bytes), u3 = a CJK character (3),
\* u4 = an emoji (4), us = no-break space (2), uw = ideographic space (3)
\* uc = a combining accent (2), ul = line separator (3), cl = next line (2);
\* vt, ff, nul = ASCII control characters
Wide == {"u2", "u3", "u4", "us", "uw", "uc", "ul", "cl"}
UniWs == AsciiWs \cup {"us", "uw", "ul", "cl", "vt", "ff"}

(************************** character level ********************************)
M2(s, i, e, a, b) == i + 1 < e /\ s[i] = a /\ s[i+1] = b
M3(s, i, e, a, b, c) == i + 2 < e /\ s[i] = a /\ s[i+1] = b /\ s[i+2] = c
RECURSIVE MatchFrom(_,_,_,_,_)
MatchFrom(s, i, e, p, k) ==
  IF k > Len(p) THEN TRUE
  ELSE IF i >= e THEN FALSE
  ELSE s[i] = p[k] /\ MatchFrom(s, i+1, e, p, k+1)
M(s, i, e, p) == MatchFrom(s, i, e, p, 1)

\* first position >= i of the pattern p, or 0
RECURSIVE Find(_,_,_,_)
Find(s, i, e, p) ==
  IF i + Len(p) > e THEN 0
  ELSE IF s[i] = p[1] /\ M(s, i, e, p) THEN i
  ELSE Find(s, i+1, e, p)
RECURSIVE Find1(_,_,_,_)
Find1(s, i, e, c) == IF i >= e THEN 0 ELSE IF s[i] = c THEN i ELSE Find1(s, i+1, e, c)
\* first position >= i, before any line feed, of the pattern p, or 0
RECURSIVE FindLine(_,_,_,_)
FindLine(s, i, e, p) ==
  IF i + Len(p) > e THEN 0
  ELSE IF s[i] = "\n" THEN 0
  ELSE IF s[i] = p[1] /\ M(s, i, e, p) THEN i
  ELSE FindLine(s, i+1, e, p)

Contains2(s, a, z, p) == Find(s, a, z, p) # 0

\* end of the current line: position of its line ending (CR LF or LF), or e
Eol(s, i, e) ==
  LET n == Find1(s, i, e, "\n") IN
  IF n = 0 THEN e
  ELSE IF n > i /\ s[n-1] = "\r" THEN n - 1 ELSE n

\* position after the line ending at i, or e if nothing is left; 0 if neither
LineEnding(s, i, e) ==
  IF i < e /\ s[i] = "\n" THEN i + 1
  ELSE IF M2(s, i, e, "\r", "\n") THEN i + 2 ELSE 0
EolOrEnd(s, i, e) == IF i >= e THEN i ELSE LineEnding(s, i, e)

Bol(s, i) == i = 1 \/ s[i-1] = "\n"

RECURSIVE SkipBlank(_,_,_)
SkipBlank(s, i, e) == IF i < e /\ s[i] \in Blank THEN SkipBlank(s, i+1, e) ELSE i
RECURSIVE TrimEnd(_,_,_)
TrimEnd(s, i, e) == IF e > i /\ s[e-1] \in Blank THEN TrimEnd(s, i, e-1) ELSE e
OnlyBlank(s, a, z) == SkipBlank(s, a, z) = z

BlankLine(s, i, e) ==
  IF ~Bol(s, i) THEN 0
  ELSE LET j == SkipBlank(s, i, e) IN
       IF j >= e THEN (IF j > i THEN j ELSE 0) ELSE LineEnding(s, j, e)

(***************************** comments ************************************)
\* the lines of the text a .. z-1; an empty last line does not count
RECURSIVE LinesOf(_,_,_)
LinesOf(s, a, z) ==
  LET n == Find1(s, a, z, "\n") IN
  IF n = 0 THEN IF a < z THEN << <<a, z>> >> ELSE <<>>
  ELSE << <<a, IF n > a /\ s[n-1] = "\r" THEN n - 1 ELSE n>> >> \o LinesOf(s, n+1, z)

Comment(s, i, e, d) ==
  IF ~M2(s, i, e, "%", "%") THEN NIL
  ELSE LET c == IF M3(s, i, e, "%", "%", "+") THEN Find(s, i+3, e, <<"+","%","%">>) ELSE 0 IN
       IF c # 0 THEN << c+3, <<"mlc", i, c+3, d, LinesOf(s, i+3, c)>> >>
       ELSE LET z == Eol(s, i+2, e) IN << z, <<"lc", i, z, d, i+2, z>> >>

(************************** math, code, tags *******************************)
PP == <<"%","%">>
MathInline(s, i, e, d) ==
  IF i >= e \/ s[i] # "$" THEN NIL
  ELSE LET z == FindLine(s, i+1, e, <<"$">>) IN
       IF z = 0 \/ z = i+1 THEN NIL
       ELSE IF Contains2(s, i+1, z, PP) THEN NIL
       ELSE << z+1, <<"math", i, z+1, d, i+1, z>> >>

\* content between two delimiters on one line, at least one character: its end, or 0
Surround(s, i, e, l, r) ==
  IF ~M(s, i, e, l) THEN 0
  ELSE LET a == i + Len(l) IN
       IF a >= e \/ s[a] = "\n" THEN 0
       ELSE LET z == FindLine(s, a+1, e, r) IN
            IF z = 0 THEN 0 ELSE IF Contains2(s, a, z, PP) THEN 0 ELSE z

CodeInline(s, i, e, d) ==
  LET z == Surround(s, i, e, <<"`">>, <<"`">>) IN
  IF z = 0 THEN NIL ELSE << z+1, <<"code", i, z+1, d, i+1, z>> >>

RECURSIVE WordEnd(_,_,_)
WordEnd(s, i, e) == IF i < e /\ s[i] \notin AsciiWs THEN WordEnd(s, i+1, e) ELSE i
\* names between colons from i up to z; NIL unless they are all non-empty and reach z
RECURSIVE TagNames(_,_,_)
TagNames(s, i, z) ==
  LET c == Find1(s, i, z, ":") IN
  IF c = 0 \/ c = i THEN NIL
  ELSE IF c + 1 = z THEN << <<i, c>> >>
  ELSE LET r == TagNames(s, c+1, z) IN IF r = NIL THEN NIL ELSE << <<i, c>> >> \o r
Tags(s, i, e, d) ==
  IF i >= e \/ s[i] # ":" THEN NIL
  ELSE IF ~(i = 1 \/ s[i-1] \in AsciiWs) THEN NIL
  ELSE LET z == WordEnd(s, i, e)
           ts == TagNames(s, i+1, z) IN
       IF ts = NIL THEN NIL ELSE << z, <<"tags", i, z, d, ts>> >>

Keyword(s, i, e) ==
  IF i >= e THEN ""
  ELSE IF s[i] = "D" THEN (IF M(s,i,e,<<"D","O","N","E">>) THEN "DONE" ELSE "")
  ELSE IF s[i] = "F" THEN (IF M(s,i,e,<<"F","I","X","E","D">>) THEN "FIXED"
                           ELSE IF M(s,i,e,<<"F","I","X","M","E">>) THEN "FIXME" ELSE "")
  ELSE IF s[i] = "S" THEN (IF M(s,i,e,<<"S","T","A","R","T","E","D">>) THEN "STARTED" ELSE "")
  ELSE IF s[i] = "T" THEN (IF M(s,i,e,<<"T","O","D","O">>) THEN "TODO" ELSE "")
  ELSE IF s[i] = "X" THEN (IF M(s,i,e,<<"X","X","X">>) THEN "XXX" ELSE "")
  ELSE ""
KeywordLen == [DONE |-> 4, FIXED |-> 5, FIXME |-> 5, STARTED |-> 7, TODO |-> 4, XXX |-> 3]

(******************************** URIs *************************************)
SchemeChar == Letters \cup Uppers \cup Digits \cup {"+","-","."}
RegName    == Letters \cup Uppers \cup Digits \cup
              {"!","$","%","&","'","(",")","*","+",",","-",".",";","=","_","~"}
PathChar   == RegName \cup {":","@","/"}
FragChar   == PathChar \cup {"?"}
\* what the reader encodes itself before it tries again
Encoded    == {" ", "\"", "<", ">", "`", "#", "\t", "\r", "vt", "ff", "nul"} \cup Wide

RECURSIVE SchemeEnd(_,_,_)
SchemeEnd(s, i, z) ==
  IF i >= z THEN 0 ELSE IF s[i] = ":" THEN i
  ELSE IF s[i] \in SchemeChar THEN SchemeEnd(s, i+1, z) ELSE 0
\* position of the colon after the scheme of the URI a .. z-1, or 0
Scheme(s, a, z) ==
  IF a < z /\ (s[a] \in Letters \/ s[a] \in Uppers) THEN SchemeEnd(s, a, z) ELSE 0

RECURSIVE Span(_,_,_,_)
\* first position that is outside the set of characters ok, or breaks a % escape
Span(s, i, z, ok) ==
  IF i >= z THEN i
  ELSE IF s[i] = "%" THEN
         (IF i + 2 < z /\ s[i+1] \in Hex /\ s[i+2] \in Hex THEN Span(s, i+3, z, ok) ELSE i)
  ELSE IF s[i] \in ok THEN Span(s, i+1, z, ok) ELSE i

RECURSIVE StopAt(_,_,_,_)
StopAt(s, i, z, stops) == IF i >= z \/ s[i] \in stops THEN i ELSE StopAt(s, i+1, z, stops)
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
RECURSIVE NumOf(_,_,_,_)
NumOf(s, a, z, acc) == IF a >= z THEN acc ELSE NumOf(s, a+1, z, acc * 10 + DigitVal(s[a]))
AllDigits(s, a, z) == a < z /\ \A k \in a .. z-1 : s[k] \in Digits

\* [user@]host[:port]
AuthorityOk(s, a, z, enc) ==
  LET at == Find1(s, a, z, "@")
      h  == IF at = 0 THEN a ELSE at + 1
      c  == Find1(s, h, z, ":")
      hz == IF c = 0 THEN z ELSE c
  IN /\ at = 0 \/ Span(s, a, at, RegName \cup {":"} \cup enc) = at
     /\ Span(s, h, hz, RegName \cup enc) = hz
     /\ c = 0 \/ c + 1 = z \/ (AllDigits(s, c+1, z) /\ z - c <= 6 /\ NumOf(s, c+1, z, 0) <= 65535)

\* is a .. z-1 a URI reference, when the characters of enc are written escaped?
\* (without a scheme, no colon in the first segment)
IsUriWith(s, a, z, enc) ==
  LET c  == Scheme(s, a, z)
      p0 == IF c = 0 THEN a ELSE c + 1
      enc1 == enc \ {"#"}
      auth == M2(s, p0, z, "/", "/")
      p1 == IF auth THEN StopAt(s, p0+2, z, {"/", "?", "#"}) ELSE p0
      authOk == (~auth) \/ AuthorityOk(s, p0+2, p1, enc1)
      p2 == Span(s, p1, z, PathChar \cup enc1)
      seg == IF p1 < z /\ s[p1] = "/" THEN p1 + 1 ELSE p1
      segEnd == StopAt(s, seg, p2, {"/"})
      colonOk == c # 0 \/ auth \/ Find1(s, seg, segEnd, ":") = 0
      p3 == IF p2 < z /\ s[p2] = "?" THEN Span(s, p2+1, z, FragChar \cup enc1) ELSE p2
      p4 == IF p3 < z /\ s[p3] = "#" THEN Span(s, p3+1, z, FragChar \cup enc) ELSE p3
  IN authOk /\ colonOk /\ p4 = z

IsUri(s, a, z) == IsUriWith(s, a, z, {}) \/ IsUriWith(s, a, z, Encoded)

RawSchemes == { <<"h","t","t","p">>, <<"h","t","t","p","s">>, <<"f","t","p">>, <<"f","i","l","e">>,
                <<"l","o","c","a","l">>, <<"m","a","i","l","t","o">> }
RECURSIVE RawEnd(_,_,_)
RawEnd(s, i, e) ==
  IF i >= e \/ s[i] \in {"\n", "\t", " "} \/ M2(s, i, e, "\r", "\n") THEN i ELSE RawEnd(s, i+1, e)
RawLink(s, i, e, d) ==
  LET z == RawEnd(s, i, e)
      c == Scheme(s, i, z) IN
  IF c = 0 THEN NIL
  ELSE IF SubSeq(s, i, c-1) \notin RawSchemes THEN NIL
  ELSE IF ~IsUriWith(s, i, z, {}) THEN NIL
  ELSE << z, <<"raw", i, z, d, <<i, z>> >> >>

(******************************** links ************************************)
\* end of the target: before | or ]] or }} or the end of the link
RECURSIVE TargetEnd(_,_,_)
TargetEnd(s, i, z) ==
  IF i >= z \/ s[i] = "|" \/ M2(s, i, z, "]", "]") \/ M2(s, i, z, "}", "}") THEN i
  ELSE TargetEnd(s, i+1, z)
BarOrEnd(s, i, z) == LET b == Find1(s, i, z, "|") IN IF b = 0 THEN z ELSE b

\* key="value" pairs separated by blanks; NIL if there is none
RECURSIVE Props(_,_,_)
Props(s, i, z) ==
  LET q == Find1(s, i, z, "=") IN
  IF q = 0 \/ q = i THEN NIL
  ELSE IF ~(q + 1 < z /\ s[q+1] = "\"") THEN NIL
  ELSE LET v == Find1(s, q+2, z, "\"") IN
       IF v = 0 THEN NIL
       ELSE LET j == SkipBlank(s, v+1, z)
                r == IF j > v+1 THEN Props(s, j, z) ELSE NIL IN
            << <<i, q, q+2, v>> >> \o r

RECURSIVE LinkData(_,_,_), Transclusion(_,_,_,_), Description(_,_,_)
\* << after, target range, description, properties >>
LinkData(s, a, z) ==
  LET t == TargetEnd(s, a, z) IN
  IF t = a THEN NIL
  ELSE IF ~IsUri(s, a, t) THEN NIL
  ELSE LET ds == IF t < z /\ s[t] = "|" THEN Description(s, t+1, BarOrEnd(s, t+1, z)) ELSE NIL
           t2 == IF ds = NIL THEN t ELSE BarOrEnd(s, t+1, z)
           ps == IF t2 < z /\ s[t2] = "|" THEN Props(s, t2+1, z) ELSE NIL
       IN << t2, <<a, t>>, ds, ps >>
Transclusion(s, i, e, d) ==
  LET z == Surround(s, i, e, <<"{","{">>, <<"}","}">>) IN
  IF z = 0 THEN NIL
  ELSE LET r == LinkData(s, i+2, z) IN
       IF r = NIL THEN NIL ELSE << z+2, <<"tr", i, z+2, d, r[2], r[3], r[4]>> >>
Description(s, a, z) ==
  LET t == Transclusion(s, a, z, 0) IN
  IF t = NIL THEN <<"text", a, z>> ELSE <<"tr", t[2][5], t[2][6], t[2][7]>>

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1,3,5,7,8,10,12} -> 31 [] m \in {4,6,9,11} -> 30
                  [] OTHER -> IF Leap(y) THEN 29 ELSE 28
\* Y-M-D, a day of the calendar: << before year 0?, year, month, day >>, or NIL.
\* Blanks may precede each number; a year has up to 4 digits, or a sign and more.
RECURSIVE SkipSet(_,_,_,_)
SkipSet(s, i, z, ok) == IF i < z /\ s[i] \in ok THEN SkipSet(s, i+1, z, ok) ELSE i
RECURSIVE SkipDigits(_,_,_,_)
SkipDigits(s, i, z, n) == IF n > 0 /\ i < z /\ s[i] \in Digits THEN SkipDigits(s, i+1, z, n-1) ELSE i
DateOf(s, a, z) ==
  LET b  == SkipSet(s, a, z, UniWs)
      sg == b < z /\ s[b] \in {"-", "+"}
      y0 == IF sg THEN b+1 ELSE b
      y1 == SkipDigits(s, y0, z, IF sg THEN 9 ELSE 4)
      m0 == SkipSet(s, y1+1, z, UniWs)
      m1 == SkipDigits(s, m0, z, 2)
      d0 == SkipSet(s, m1+1, z, UniWs)
      d1 == SkipDigits(s, d0, z, 2)
  IN IF ~(y1 > y0 /\ y1 < z /\ s[y1] = "-") THEN NIL
     ELSE IF ~(m1 > m0 /\ m1 < z /\ s[m1] = "-") THEN NIL
     ELSE IF ~(d1 > d0 /\ d1 = z) THEN NIL
     ELSE LET y == NumOf(s, y0, y1, 0) m == NumOf(s, m0, m1, 0) dd == NumOf(s, d0, d1, 0) IN
          IF m \in 1..12 /\ dd >= 1 /\ dd <= DaysIn(y, m) /\ y <= 262142
          THEN << sg /\ s[b] = "-", y, m, dd >> ELSE NIL

RECURSIVE DateEnd(_,_,_)
DateEnd(s, i, z) == IF i >= z \/ s[i] \in {"|", "#"} THEN i ELSE DateEnd(s, i+1, z)
DiaryData(s, a, z) ==
  IF ~M(s, a, z, <<"d","i","a","r","y",":">>) THEN NIL
  ELSE LET t == DateEnd(s, a+6, z) IN
       IF DateOf(s, a+6, t) = NIL THEN NIL
       ELSE LET anc == IF t < z /\ s[t] = "#" THEN <<t+1, BarOrEnd(s, t, z)>> ELSE NIL
                t2 == IF anc = NIL THEN t ELSE anc[2]
                ds == IF t2 < z /\ s[t2] = "|" THEN Description(s, t2+1, BarOrEnd(s, t2+1, z)) ELSE NIL
            IN << DateOf(s, a+6, t), anc, ds >>

\* target and description after the wiki of an interwiki link
InterData(s, a, z) ==
  LET t == TargetEnd(s, a, z) IN
  IF t = a THEN NIL ELSE IF ~IsUri(s, a, t) THEN NIL
  ELSE << <<a, t>>, IF t < z /\ s[t] = "|" THEN Description(s, t+1, BarOrEnd(s, t+1, z)) ELSE NIL >>
\* N is at most 4294967295 (digit by digit: TLC's numbers end before that)
RECURSIVE SkipZeros(_,_,_)
SkipZeros(s, i, z) == IF i < z /\ s[i] = "0" THEN SkipZeros(s, i+1, z) ELSE i
MaxIndex == <<"4","2","9","4","9","6","7","2","9","5">>
RECURSIVE AtMost(_,_,_)
AtMost(s, i, k) == IF k > 10 THEN TRUE
                   ELSE IF DigitVal(s[i]) # DigitVal(MaxIndex[k]) THEN DigitVal(s[i]) < DigitVal(MaxIndex[k])
                   ELSE AtMost(s, i+1, k+1)
IndexOk(s, a, z) == LET b == SkipZeros(s, a, z) IN z - b < 10 \/ (z - b = 10 /\ AtMost(s, b, 1))
\* the colon after wikiN, or 0
IndexEnd(s, a, z) ==
  IF ~M(s, a, z, <<"w","i","k","i">>) THEN 0
  ELSE LET c == Find1(s, a+4, z, ":") IN
       IF c # 0 /\ AllDigits(s, a+4, c) /\ IndexOk(s, a+4, c) THEN c ELSE 0
NameEnd(s, a, z) ==
  IF ~M(s, a, z, <<"w","n",".">>) THEN 0
  ELSE LET c == Find1(s, a+3, z, ":") IN IF c > a+3 THEN c ELSE 0

SquareLink(s, i, e, d) ==
  LET z == Surround(s, i, e, <<"[","[">>, <<"]","]">>) IN
  IF z = 0 THEN NIL
  ELSE
  LET a == i + 2
      di == DiaryData(s, a, z)
      ix == IndexEnd(s, a, z)
      ixd == IF ix = 0 THEN NIL ELSE InterData(s, ix+1, z)
      nx == NameEnd(s, a, z)
      nxd == IF nx = 0 THEN NIL ELSE InterData(s, nx+1, z)
      w  == LinkData(s, a, z)
  IN IF di # NIL THEN << z+2, <<"diary", i, z+2, d, di[1], di[2], di[3]>> >>
     ELSE IF ixd # NIL THEN << z+2, <<"iwi", i, z+2, d, <<a+4, ix>>, ixd[1], ixd[2]>> >>
     ELSE IF nxd # NIL THEN << z+2, <<"iwn", i, z+2, d, <<a+3, nx>>, nxd[1], nxd[2]>> >>
     ELSE IF w # NIL THEN << z+2, <<"wiki", i, z+2, d, w[2], w[3], w[4]>> >>
     ELSE NIL

Link(s, i, e, d) ==
  IF i >= e THEN NIL
  ELSE IF s[i] = "[" THEN SquareLink(s, i, e, d)
  ELSE IF s[i] = "{" THEN Transclusion(s, i, e, d)
  ELSE RawLink(s, i, e, d)

(*********************** decorated text and text ***************************)
RECURSIVE Backtrack(_,_)
Backtrack(s, i) == IF i > 1 /\ s[i-1] \notin AsciiWs THEN Backtrack(s, i-1) ELSE i

RECURSIVE Decorated(_,_,_,_), DecoContents(_,_,_,_), NonText(_,_,_), TextEnd(_,_,_,_), Text(_,_,_,_)

Deco(s, i, e, d, kind, delim) ==
  LET z == Surround(s, i, e, delim, delim) IN
  IF z = 0 THEN NIL
  ELSE LET cs == DecoContents(s, i + Len(delim), z, d+1) IN
       IF cs = NIL THEN NIL
       ELSE << z + Len(delim), <<kind, i, z + Len(delim), d, cs>> >>
Decorated(s, i, e, d) ==
  IF i >= e THEN NIL
  ELSE CASE s[i] = "*" -> Deco(s, i, e, d, "b", <<"*">>)
         [] s[i] = "_" -> Deco(s, i, e, d, "i", <<"_">>)
         [] s[i] = "~" -> Deco(s, i, e, d, "s", <<"~","~">>)
         [] s[i] = "^" -> Deco(s, i, e, d, "sup", <<"^">>)
         [] s[i] = "," -> Deco(s, i, e, d, "sub", <<",",",">>)
         [] OTHER -> NIL
\* links, keywords, decorated texts and texts that fill i .. z-1; NIL if they cannot
DecoContents(s, i, z, d) ==
  LET l  == Link(s, i, z, d)
      kw == Keyword(s, i, z)
      dt == Decorated(s, i, z, d)
      x  == IF l # NIL THEN l
            ELSE IF kw # "" THEN << i + KeywordLen[kw], <<"kw", i, i + KeywordLen[kw], d, kw>> >>
            ELSE IF dt # NIL THEN dt
            ELSE Text(s, i, z, d)
  IN IF x = NIL THEN NIL
     ELSE IF x[1] = z THEN << x[2] >>
     ELSE LET r == DecoContents(s, x[1], z, d) IN IF r = NIL THEN NIL ELSE << x[2] >> \o r

\* does anything else than text start at i?  The position where it starts
\* (before i for a raw link, noticed at its colon), or 0
NonText(s, i, e) ==
  LET c == s[i] IN
  CASE c = "%" -> IF M2(s, i, e, "%", "%") THEN i ELSE 0
    [] c = "`" -> IF CodeInline(s, i, e, 0) # NIL THEN i ELSE 0
    [] c = "$" -> IF MathInline(s, i, e, 0) # NIL THEN i ELSE 0
    [] c = ":" -> IF Tags(s, i, e, 0) # NIL THEN i
                  ELSE LET b == Backtrack(s, i) IN
                       IF b < i /\ RawLink(s, b, e, 0) # NIL THEN b ELSE 0
    [] c \in {"[", "{"} -> IF Link(s, i, e, 0) # NIL THEN i ELSE 0
    [] c \in {"*", "_", "~", "^", ","} -> IF Decorated(s, i, e, 0) # NIL THEN i ELSE 0
    [] c \in {"D", "F", "S", "T", "X"} -> IF Keyword(s, i, e) # "" THEN i ELSE 0
    [] OTHER -> 0
\* the end of the text from a; what would start before a does not end it
TextEnd(s, a, i, e) ==
  IF i >= e \/ s[i] = "\n" \/ M2(s, i, e, "\r", "\n") THEN i
  ELSE LET x == NonText(s, i, e) IN IF x >= a THEN x ELSE TextEnd(s, a, i+1, e)
Text(s, i, e, d) ==
  LET z == TextEnd(s, i, i, e) IN IF z <= i THEN NIL ELSE << z, <<"t", i, z, d>> >>

(***************************** inline elements *****************************)
InlineElement(s, i, e, d) ==
  LET c == s[i]
      try == CASE c = "%" -> Comment(s, i, e, d)
               [] c = "$" -> MathInline(s, i, e, d)
               [] c = "`" -> CodeInline(s, i, e, d)
               [] c = ":" -> Tags(s, i, e, d)
               [] c \in {"[", "{"} -> Link(s, i, e, d)
               [] c \in {"*", "_", "~", "^", ","} -> Decorated(s, i, e, d)
               [] c \in {"h", "f", "l", "m"} -> RawLink(s, i, e, d)
               [] c \in {"D", "F", "S", "T", "X"} ->
                    LET k == Keyword(s, i, e) IN
                    IF k = "" THEN NIL
                    ELSE << i + KeywordLen[k], <<"kw", i, i + KeywordLen[k], d, k>> >>
               [] OTHER -> NIL
  IN IF try # NIL THEN try ELSE Text(s, i, e, d)
\* << next, elements >>; elements is empty when there is none
RECURSIVE Inlines(_,_,_,_)
Inlines(s, i, e, d) ==
  IF i >= e \/ s[i] = "\n" \/ M2(s, i, e, "\r", "\n") THEN << i, <<>> >>
  ELSE LET x == InlineElement(s, i, e, d) IN
       IF x = NIL THEN << i, <<>> >>
       ELSE LET r == Inlines(s, x[1], e, d) IN << r[1], << x[2] >> \o r[2] >>

(********************************* blocks **********************************)
RECURSIVE CountChar(_,_,_,_)
CountChar(s, i, e, c) == IF i < e /\ s[i] = c THEN 1 + CountChar(s, i+1, e, c) ELSE 0

Header(s, i, e, d) ==
  IF ~Bol(s, i) THEN NIL
  ELSE
  LET j == SkipBlank(s, i, e) IN
  IF ~(j < e /\ s[j] = "=") THEN NIL
  ELSE
  LET n == CountChar(s, j, e, "=")
      eol == Eol(s, j+n, e)
      q == TrimEnd(s, j+n, eol)
      ok1 == n <= 6 /\ q - n >= j + n /\ \A k \in q-n .. q-1 : s[k] = "="
  IN IF ~ok1 THEN NIL
     ELSE LET p == j + n  z == q - n IN
     IF ~(p < z) THEN NIL
     ELSE IF s[p] = "=" \/ s[z-1] = "=" THEN NIL
     ELSE LET a == SkipBlank(s, p, z)
              b == TrimEnd(s, a, z)
              c == Inlines(s, a, b, d+1)[2]
              nx == EolOrEnd(s, eol, e)
          IN IF c = <<>> THEN NIL
             ELSE << nx, <<"h", i, nx, d, n, j > i, c>> >>

Divider(s, i, e, d) ==
  IF ~Bol(s, i) THEN NIL
  ELSE LET n == CountChar(s, i, e, "-")
           nx == IF n < 4 THEN 0 ELSE EolOrEnd(s, i+n, e) IN
       IF n < 4 \/ nx = 0 THEN NIL ELSE << nx, <<"hr", i, nx, d>> >>

RECURSIVE NameStop(_,_,_)
NameStop(s, i, e) ==
  IF i >= e \/ s[i] \in {" ", "\t", "%"} THEN i ELSE NameStop(s, i+1, e)
TITLE == <<"%","t","i","t","l","e">>
NOHTML == <<"%","n","o","h","t","m","l">>
TEMPLATE == <<"%","t","e","m","p","l","a","t","e">>
DATE == <<"%","d","a","t","e">>
Placeholder(s, i, e, d) ==
  IF ~Bol(s, i) \/ ~(i < e /\ s[i] = "%") THEN NIL
  ELSE
  LET eol == Eol(s, i, e)
      nx == EolOrEnd(s, eol, e)
      \* position of the value after a name that ends at j; 0 if there is none
      Val(j) == LET v == SkipBlank(s, j, eol) IN IF v > j /\ v < eol THEN v ELSE 0
  IN
  IF M(s, i, eol, TITLE) THEN
    LET v == Val(i+6) IN
    IF v = 0 THEN NIL ELSE << nx, <<"ph", i, eol, d, "title", <<>>, <<v, eol>> >> >>
  ELSE IF M(s, i, eol, NOHTML) THEN
    IF SkipBlank(s, i+7, eol) = eol THEN << nx, <<"ph", i, eol, d, "nohtml", <<>>, <<>> >> >> ELSE NIL
  ELSE IF M(s, i, eol, TEMPLATE) THEN
    LET v == Val(i+9) IN
    IF v = 0 THEN NIL ELSE << nx, <<"ph", i, eol, d, "template", <<>>, <<v, eol>> >> >>
  ELSE IF M(s, i, eol, DATE) THEN
    LET v == Val(i+5) IN
    IF v = 0 THEN NIL
    ELSE IF DateOf(s, v, eol) = NIL THEN NIL
    ELSE << nx, <<"ph", i, eol, d, "date", <<>>, DateOf(s, v, eol)>> >>
  ELSE LET z == NameStop(s, i+1, eol)
           v == Val(z) IN
       IF z = i+1 \/ v = 0 THEN NIL
       ELSE << nx, <<"ph", i, eol, d, "other", <<i+1, z>>, <<v, eol>> >> >>

(* quotes; a lone CR is no line ending, and such a line is not quoted *)
LoneCr(s, a, z) == \E k \in a .. z-1 : s[k] = "\r"
ArrowLine(s, i, e) ==
  LET j == SkipBlank(s, i, e)
      k == IF M2(s, j, e, ">", " ") THEN j + 2 ELSE j + 1 IN
  IF ~(j < e /\ s[j] = ">") THEN NIL
  ELSE LET z == Eol(s, k, e) IN
       IF (k = j + 1 /\ z # k) \/ LoneCr(s, k, z) THEN NIL ELSE << EolOrEnd(s, z, e), <<k, z>> >>
RECURSIVE BlankLines(_,_,_)
\* << next, number of blank lines >>
BlankLines(s, i, e) ==
  LET n == IF i < e THEN BlankLine(s, i, e) ELSE 0 IN
  IF n = 0 THEN << i, 0 >> ELSE LET r == BlankLines(s, n, e) IN << r[1], r[2] + 1 >>
RECURSIVE ArrowLines(_,_,_)
ArrowLines(s, i, e) ==
  LET b == BlankLines(s, i, e)
      l == IF b[1] < e THEN ArrowLine(s, b[1], e) ELSE NIL IN
  IF l = NIL THEN << i, <<>> >>
  ELSE LET r == ArrowLines(s, l[1], e) IN
       << r[1], [k \in 1 .. b[2] |-> <<1, 1>>] \o << l[2] >> \o r[2] >>
ArrowQuote(s, i, e, d) ==
  LET l == ArrowLine(s, i, e) IN
  IF l = NIL THEN NIL
  ELSE LET r == ArrowLines(s, l[1], e) IN
       << r[1], <<"bq", i, r[1], d, << l[2] >> \o r[2]>> >>
IndentLine(s, i, e) ==
  LET j == SkipBlank(s, i, e) IN
  IF j - i < 4 THEN NIL
  ELSE LET z == Eol(s, j, e) IN
       IF j >= z \/ LoneCr(s, j, z) THEN NIL ELSE << EolOrEnd(s, z, e), <<j, z>> >>
RECURSIVE IndentLines(_,_,_)
IndentLines(s, i, e) ==
  LET l == IndentLine(s, i, e) IN
  IF l = NIL THEN << i, <<>> >>
  ELSE LET r == IndentLines(s, l[1], e) IN << r[1], << l[2] >> \o r[2] >>
IndentQuote(s, i, e, d) ==
  LET r == IndentLines(s, i, e) IN
  IF r[2] = <<>> THEN NIL ELSE << r[1], <<"bq", i, r[1], d, r[2]>> >>

(* code and math blocks *)
RECURSIVE Fence(_,_,_,_)
\* from the start of a line: << lines as ranges, position and indent of the closing line, next >>
Fence(s, i, e, p) ==
  IF i >= e THEN NIL
  ELSE LET j == SkipBlank(s, i, e)
           c == IF M(s, j, e, p) THEN SkipBlank(s, j + Len(p), e) ELSE 0
           nx == IF c = 0 THEN 0 ELSE EolOrEnd(s, c, e) IN
       IF nx # 0 THEN << <<>>, j - i, nx >>
       ELSE LET z == Eol(s, i, e)
                n == EolOrEnd(s, z, e)
                r == Fence(s, n, e, p) IN
            IF r = NIL THEN NIL ELSE << << <<i, z>> >> \o r[1], r[2], r[3] >>
RECURSIVE SkipUpTo(_,_,_,_)
SkipUpTo(s, i, z, n) == IF n > 0 /\ i < z /\ s[i] \in Blank THEN SkipUpTo(s, i+1, z, n-1) ELSE i
Dedent(s, ls, n) == [k \in 1 .. Len(ls) |-> << SkipUpTo(s, ls[k][1], ls[k][2], n), ls[k][2] >>]
MinOf(a, b) == IF a < b THEN a ELSE b

CodeBlock(s, i, e, d) ==
  LET j == SkipBlank(s, i, e) IN
  IF ~M3(s, j, e, "{", "{", "{") THEN NIL
  ELSE
  LET eol == Eol(s, j+3, e)
      sp == Find1(s, j+3, eol, " ")
      lz == IF sp = 0 THEN eol ELSE sp
      hasLang == lz > j+3 /\ Find1(s, j+3, lz, "=") = 0
      k1 == SkipBlank(s, IF hasLang THEN lz ELSE j+3, eol)
      props == Props(s, k1, eol)
      k2 == IF props = NIL THEN k1 ELSE props[Len(props)][4] + 1
      bodyStart == LineEnding(s, eol, e)
      f == IF SkipBlank(s, k2, eol) = eol /\ bodyStart # 0
           THEN Fence(s, bodyStart, e, <<"}","}","}">>) ELSE NIL
  IN IF f = NIL THEN NIL
     ELSE << f[3], <<"code_block", i, f[3], d, IF hasLang THEN <<j+3, lz>> ELSE <<>>, props,
                     Dedent(s, f[1], MinOf(j - i, f[2]))>> >>
MathBlock(s, i, e, d) ==
  LET j == SkipBlank(s, i, e) IN
  IF ~M3(s, j, e, "{", "{", "$") THEN NIL
  ELSE
  LET eol == Eol(s, j+3, e)
      p == IF j+3 < eol /\ s[j+3] = "%" THEN Find1(s, j+4, eol, "%") ELSE 0
      env == IF p > j+4 THEN <<j+4, p>> ELSE <<>>
      k == IF env = <<>> THEN j+3 ELSE p+1
      bodyStart == LineEnding(s, eol, e)
      f == IF SkipBlank(s, k, eol) = eol /\ bodyStart # 0
           THEN Fence(s, bodyStart, e, <<"}","}","$">>) ELSE NIL
  IN IF f = NIL THEN NIL
     ELSE << f[3], <<"math_block", i, f[3], d, env, Dedent(s, f[1], MinOf(j - i, f[2]))>> >>

(* definition lists *)
DefLine(s, i, e, d) ==
  LET j == SkipBlank(s, i, e) IN
  IF ~M2(s, j, e, ":", ":") THEN NIL
  ELSE LET k == SkipBlank(s, j+2, e)
           z == Eol(s, k, e)
           c == Inlines(s, k, z, d+1)[2]
           nx == EolOrEnd(s, z, e) IN
       IF k = j+2 \/ c = <<>> THEN NIL ELSE << nx, <<"def", i, nx, d, c>> >>
RECURSIVE DefLines(_,_,_,_)
DefLines(s, i, e, d) ==
  LET l == IF i < e THEN DefLine(s, i, e, d) ELSE NIL IN
  IF l = NIL THEN << i, <<>> >>
  ELSE LET r == DefLines(s, l[1], e, d) IN << r[1], << l[2] >> \o r[2] >>
\* << next, << term, definitions, start of the definitions >> >>
TermAndDefs(s, i, e, d) ==
  LET j == SkipBlank(s, i, e)
      t == FindLine(s, j, e, <<":",":">>) IN
  IF t = 0 \/ t = j THEN NIL
  ELSE IF M2(s, j, t, "%", "%") THEN NIL
  ELSE
  LET eol == Eol(s, t+2, e)
      k == SkipBlank(s, t+2, eol)
      dc == IF k > t+2 THEN Inlines(s, k, eol, d+1)[2] ELSE <<>>
      nx == EolOrEnd(s, eol, e)
  IN IF dc = <<>> /\ k # eol THEN NIL
     ELSE LET ds == DefLines(s, nx, e, d)
              first == IF dc = <<>> THEN <<>> ELSE << <<"def", t+2, eol, d, dc>> >>
          IN IF first = <<>> /\ ds[2] = <<>> THEN NIL
             ELSE << ds[1], << <<"term", j, t+2, d, Inlines(s, j, t, d+1)[2]>>, first \o ds[2] >> >>
RECURSIVE TermLoop(_,_,_,_)
TermLoop(s, i, e, d) ==
  LET x == IF i < e THEN TermAndDefs(s, i, e, d) ELSE NIL IN
  IF x = NIL THEN << i, <<>> >>
  ELSE LET r == TermLoop(s, x[1], e, d) IN << r[1], << x[2] >> \o r[2] >>
DefinitionList(s, i, e, d) ==
  LET r == TermLoop(s, i, e, d+1) IN
  IF r[2] = <<>> THEN NIL ELSE << r[1], <<"dl", i, r[1], d, r[2]>> >>

(* tables *)
SpanCell(s, i, e, mark) ==
  LET j == SkipBlank(s, i, e) IN
  IF M(s, j, e, mark) THEN SkipBlank(s, j + Len(mark), e) ELSE 0
AlignCell(s, i, e) ==
  LET c1 == i < e /\ s[i] = ":"
      j == IF c1 THEN i+1 ELSE i
      n == CountChar(s, j, e, "-")
      c2 == j+n < e /\ s[j+n] = ":"
  IN IF n = 0 THEN NIL
     ELSE << IF c2 THEN j+n+1 ELSE j+n,
             IF c1 /\ c2 THEN "center" ELSE IF c2 THEN "right" ELSE IF c1 THEN "left" ELSE "none" >>
\* a cell ends at the next bar; what only starts like a span or an alignment is content
Cell(s, i, e, d) ==
  LET up == SpanCell(s, i, e, <<"\\","/">>)
      le == SpanCell(s, i, e, <<">">>)
      al == AlignCell(s, i, e)
      b  == FindLine(s, i, e, <<"|">>)
      AtBar(p) == p < e /\ s[p] = "|"
  IN IF b = 0 \/ b = i THEN NIL
     ELSE IF up # 0 /\ AtBar(up) THEN << up, <<"up", i, up, d>> >>
     ELSE IF le # 0 /\ AtBar(le) THEN << le, <<"left", i, le, d>> >>
     ELSE IF al # NIL /\ AtBar(al[1]) THEN << al[1], <<"align", i, al[1], d, al[2]>> >>
     ELSE << b, <<"cell", i, b, d, Inlines(s, i, b, d+1)[2]>> >>
RECURSIVE Cells(_,_,_,_)
\* cells from after a bar up to the end of the line: << position after the last bar, cells >>
Cells(s, i, e, d) ==
  LET c == Cell(s, i, e, d) IN
  IF c = NIL THEN << i, <<>> >>
  ELSE LET r == Cells(s, c[1]+1, e, d) IN << r[1], << c[2] >> \o r[2] >>
Row(s, i, e, d) ==
  LET j == SkipBlank(s, i, e) IN
  IF ~(j < e /\ s[j] = "|") THEN NIL
  ELSE LET r == Cells(s, j+1, e, d)
           nx == EolOrEnd(s, r[1], e) IN
       IF r[2] = <<>> \/ nx = 0 THEN NIL ELSE << nx, r[2] >>
RECURSIVE Rows(_,_,_,_)
Rows(s, i, e, d) ==
  LET x == IF i < e THEN Row(s, i, e, d) ELSE NIL IN
  IF x = NIL THEN << i, <<>> >>
  ELSE LET r == Rows(s, x[1], e, d) IN << r[1], << x[2] >> \o r[2] >>
DividerRow(row) == \A k \in 1 .. Len(row) : row[k][1] = "align"
Table(s, i, e, d, nested) ==
  LET r == Rows(s, i, e, d+1) IN
  IF r[2] = <<>> THEN NIL
  ELSE IF \A k \in 1 .. Len(r[2]) : DividerRow(r[2][k]) THEN NIL
  ELSE << r[1], <<"table", i, r[1], d, (~nested) /\ s[i] \in Blank, r[2]>> >>

(* lists *)
RECURSIVE SpanSet(_,_,_,_)
SpanSet(s, i, e, ok) == IF i < e /\ s[i] \in ok THEN SpanSet(s, i+1, e, ok) ELSE i
Suffix(s, i, e) ==
  IF M2(s, i, e, ".", " ") THEN "." ELSE IF M2(s, i, e, ")", " ") THEN ")" ELSE ""
LowRoman == {"i","v","x","l","c","d","m"}
UpRoman  == {"I","V","X","L","C","D","M"}
\* << next, type, suffix >>
Bullet(s, i, e) ==
  IF i >= e THEN NIL
  ELSE IF M2(s, i, e, "-", " ") THEN << i+2, "-", "" >>
  ELSE IF M2(s, i, e, "*", " ") THEN << i+2, "*", "" >>
  ELSE IF M2(s, i, e, "#", " ") THEN << i+2, "#", "" >>
  ELSE
  LET Try(ok, ty) == LET j == SpanSet(s, i, e, ok)
                         x == IF j > i THEN Suffix(s, j, e) ELSE "" IN
                     IF x = "" THEN NIL ELSE << j+2, ty, x >>
      All(ok) == SpanSet(s, i, e, ok) = SpanSet(s, i, e, Letters \cup Uppers)
  IN CASE s[i] \in Digits -> Try(Digits, "1")
       \* a word that is a roman number is one
       [] s[i] \in LowRoman /\ All(LowRoman) -> Try(LowRoman, "i")
       [] s[i] \in Letters -> Try(Letters, "a")
       [] s[i] \in UpRoman /\ All(UpRoman) -> Try(UpRoman, "I")
       [] s[i] \in Uppers -> Try(Uppers, "A")
       [] OTHER -> NIL
TodoMark(s, i, e) ==
  IF i + 3 < e /\ s[i] = "[" /\ s[i+2] = "]" /\ s[i+3] = " " /\ s[i+1] \in {" ",".","o","O","X","-"}
  THEN s[i+1] ELSE ""
Indent(s, i, e) == SkipBlank(s, i, e) - i

RECURSIVE ItemLines(_,_,_,_)
\* the end of the lines that are indented deeper than n, from the start of a line
ItemLines(s, i, e, n) ==
  IF i < e /\ Indent(s, i, e) > n
  THEN ItemLines(s, EolOrEnd(s, Eol(s, i, e), e), e, n) ELSE i

RECURSIVE List(_,_,_,_), ListItem(_,_,_,_), Siblings(_,_,_,_,_), ItemContents(_,_,_,_,_),
          Nested(_,_,_,_), Paragraph(_,_,_,_), ParaLines(_,_,_,_)
\* << next, item >>; i is the start of a line
ListItem(s, i, e, d) ==
  IF ~Bol(s, i) THEN NIL
  ELSE
  LET j == SkipBlank(s, i, e)
      b == Bullet(s, j, e) IN
  IF b = NIL THEN NIL
  ELSE
  LET n == j - i
      lim == ItemLines(s, EolOrEnd(s, Eol(s, j, e), e), e, n)
      todo == TodoMark(s, b[1], lim)
      k == IF todo = "" THEN b[1] ELSE b[1] + 4
      first == IF k < lim THEN Nested(s, k, lim, d+1) ELSE NIL
  IN IF first = NIL THEN NIL
     ELSE LET r == ItemContents(s, first[1], lim, d+1, n) IN
          << r[1], <<"li", j, r[1], d, b[2], b[3], todo, << first[2] >> \o r[2]>> >>
ItemContents(s, i, e, d, n) ==
  LET x == IF i < e /\ Indent(s, i, e) > n THEN Nested(s, i, e, d) ELSE NIL IN
  IF x = NIL THEN << i, <<>> >>
  ELSE LET r == ItemContents(s, x[1], e, d, n) IN << r[1], << x[2] >> \o r[2] >>
Siblings(s, i, e, d, n) ==
  LET x == IF i < e /\ Indent(s, i, e) = n THEN ListItem(s, i, e, d) ELSE NIL IN
  IF x = NIL THEN << i, <<>> >>
  ELSE LET r == Siblings(s, x[1], e, d, n) IN << r[1], << x[2] >> \o r[2] >>
\* the items of a list all take the type of the first, and the suffix that goes with it
List(s, i, e, d) ==
  LET x == ListItem(s, i, e, d+1) IN
  IF x = NIL THEN NIL
  ELSE LET r == Siblings(s, x[1], e, d+1, Indent(s, i, e))
           its == << x[2] >> \o r[2] IN
       << r[1], <<"list", i, r[1], d, [k \in 1 .. Len(its) |-> [its[k] EXCEPT ![5] = its[1][5], ![6] = its[1][6]]]>> >>

FirstOf2(a, b) == IF a # NIL THEN a ELSE b
\* blocks that may be part of a list item
Nested(s, i, e, d) ==
  LET a == DefinitionList(s, i, e, d) IN IF a # NIL THEN a ELSE
  LET b == List(s, i, e, d) IN IF b # NIL THEN b ELSE
  LET c == Table(s, i, e, d, TRUE) IN IF c # NIL THEN c ELSE
  LET f == CodeBlock(s, i, e, d) IN IF f # NIL THEN f ELSE
  LET g == MathBlock(s, i, e, d) IN IF g # NIL THEN g ELSE
  LET h == ArrowQuote(s, i, e, d) IN IF h # NIL THEN h ELSE
  Paragraph(s, i, e, d)

InterruptsParagraph(s, i, e) ==
  \/ BlankLine(s, i, e) # 0
  \/ Header(s, i, e, 0) # NIL
  \/ DefinitionList(s, i, e, 0) # NIL
  \/ List(s, i, e, 0) # NIL
  \/ Table(s, i, e, 0, FALSE) # NIL
  \/ CodeBlock(s, i, e, 0) # NIL
  \/ MathBlock(s, i, e, 0) # NIL
  \/ ArrowQuote(s, i, e, 0) # NIL
  \/ Divider(s, i, e, 0) # NIL
  \/ Placeholder(s, i, e, 0) # NIL

\* << next, lines >>
ParaLines(s, i, e, d) ==
  IF i >= e THEN << i, <<>> >>
  ELSE IF InterruptsParagraph(s, i, e) THEN << i, <<>> >>
  ELSE LET j == SkipBlank(s, i, e)
           c == Inlines(s, j, e, d) IN
       IF c[2] = <<>> THEN << i, <<>> >>
       ELSE LET nx == EolOrEnd(s, c[1], e) IN
            IF nx = 0 THEN << i, <<>> >>
            ELSE LET r == ParaLines(s, nx, e, d) IN << r[1], << c[2] >> \o r[2] >>
Paragraph(s, i, e, d) ==
  LET r == ParaLines(s, i, e, d+1) IN
  IF r[2] = <<>> THEN NIL ELSE << r[1], <<"p", i, r[1], d, r[2]>> >>

(********************************* pages ***********************************)
Block(s, i, e) ==
  LET a == Header(s, i, e, 0) IN IF a # NIL THEN a ELSE
  LET b == DefinitionList(s, i, e, 0) IN IF b # NIL THEN b ELSE
  LET c == List(s, i, e, 0) IN IF c # NIL THEN c ELSE
  LET f == Table(s, i, e, 0, FALSE) IN IF f # NIL THEN f ELSE
  LET g == CodeBlock(s, i, e, 0) IN IF g # NIL THEN g ELSE
  LET h == MathBlock(s, i, e, 0) IN IF h # NIL THEN h ELSE
  LET k == IndentQuote(s, i, e, 0) IN IF k # NIL THEN k ELSE
  LET l == ArrowQuote(s, i, e, 0) IN IF l # NIL THEN l ELSE
  LET m == Divider(s, i, e, 0) IN IF m # NIL THEN m ELSE
  LET n == Placeholder(s, i, e, 0) IN IF n # NIL THEN n ELSE
  Paragraph(s, i, e, 0)
RECURSIVE Blocks(_,_,_)
Blocks(s, i, e) ==
  IF i >= e THEN <<>>
  ELSE LET b == BlankLine(s, i, e) IN
       IF b # 0 THEN Blocks(s, b, e)
       ELSE LET x == Block(s, i, e) IN
            IF x = NIL THEN << <<"stuck", i>> >>
            ELSE << x[2] >> \o Blocks(s, x[1], e)
Page(s) == Blocks(s, 1, Len(s) + 1)

=============================================================================
