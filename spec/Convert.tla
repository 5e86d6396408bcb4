------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* A tree of files, a configuration of wikis over it, and one command with *)
(* its options; the state is built option by option.  The invariants say   *)
(* what is made: for each file which wiki it is rendered in and where the  *)
(* result goes, and that nothing else is touched.                          *)
(* Paths are relative to the directory everything happens in; @ stands for *)
(* a letter beyond ASCII.                                                  *)
(***************************************************************************)
EXTENDS Resolve, TLC, Json

CONSTANTS Mode,    \* "convert", "inspect" or "format"
          Depth    \* how many options are given

VARIABLES wl,      \* the wikis, as numbers of the table below
          inc,     \* --include
          ext,     \* paths given
          flags,   \* other options
          drop     \* files of the tree that are missing
vars == << wl, inc, ext, flags, drop >>
QFlag(n) == "q" \o ToString(n)
EFlag(n) == "ext" \o ToString(n)

P(str) == IF str = "" THEN <<>> ELSE LET c == Chars(str) IN SplitAt(c, 1, Len(c) + 1, "/")
Name(str) == IF str = "" THEN <<>> ELSE Chars(str)
WikiExt == Name("wiki")

\* the tree: no two files of a directory differ in their extension only
FileNames == << "w/a.wiki", "w/b.md", "w/d/c.wiki", "w/d/n.txt", "w/in/e.wiki", "w/in/d/f.wiki", "w/in/d/g.md", "v/a.wiki",
                "v/g.md", "v/h/x.wiki", "x/h.wiki", "x/i.md", "x/s/j.wiki", "w/.k.wiki", "w/noext", "w/a.b.wiki", "w/dir.wiki/l.wiki",
                "w/.wiki", "w/wiki", "w/m.WIKI", "w/o.wiki.bak", "v v/@.wiki", "v v/p q.x.wiki", "y.wiki", "v/x.html", "w/d/.md", "w/d/q.md" >>
Tree == [k \in 1 .. Len(FileNames) |-> P(FileNames[k])]

Wk(path, html, name, e) == [path |-> P(path), html |-> P(html), name |-> Name(name), ext |-> Name(e)]
Offered == << Wk("w", "hw", "", "wiki"),        Wk("v", "hv", "vee", "wiki"),
            Wk("w/in", "hw/in", "in", "wiki"), Wk("w", "h2", "same", "md"),
            Wk("w/d", "hd", "1", "wiki"),      Wk("nope", "hn", "0", "wiki"),
            Wk("v", "v/h", "vee", "wiki"),     Wk("v v", "h h/@", "w w", "wiki"),
            Wk("w/in/d", "hw", "in d", "md"),  Wk("w", "w/html/deep", "", "wiki") >>
Wikis == [k \in 1 .. Len(wl) |-> Offered[wl[k]]]

\* what may be given as a path: << as it is written, what it is, where it leads >>
Given == << << "x", "dir", "x" >>, << "x/h.wiki", "file", "x/h.wiki" >>, << "w/a.wiki", "file", "w/a.wiki" >>,
            << "w/d/../in", "dir", "w/in" >>, << "x/i.md", "file", "x/i.md" >>, << "nothing", "none", "" >>,
            << ".", "dir", "" >>, << "./x/s/", "dir", "x/s" >>, << "v/h", "dir", "v/h" >>, << "ln", "dir", "x" >>,
            << "empty", "dir", "empty" >>, << "w/dir.wiki", "dir", "w/dir.wiki" >>, << "ln/s/j.wiki", "file", "x/s/j.wiki" >>,
            << "y.wiki", "file", "y.wiki" >>, << "v v", "dir", "v v" >>, << "w/noext", "file", "w/noext" >>, << "w", "dir", "w" >>,
            << "w/wiki", "file", "w/wiki" >> >>
GivenPath(g) == P(Given[g][3])
Has(f) == f \notin drop
\* a file given that is not there
Missing(g) == Given[g][2] = "none" \/ (Given[g][2] = "file" /\ \E k \in drop : Tree[k] = GivenPath(g))
AnyMissing == \E k \in 1 .. Len(ext) : Missing(ext[k])

\* --include: a number is the place of a wiki, anything else a name
Includes == << "0", "1", "2", "in", "vee", "same", "zzz", "w w", "01", "in d", "IN", "ve", "w" >>
NumberOf(i) == CASE i = "0" -> 0 [] i \in {"1", "01"} -> 1 [] i = "2" -> 2 [] OTHER -> 99
Selected(k) == inc = <<>> \/ \E j \in 1 .. Len(inc) : NumberOf(Includes[inc[j]]) = k - 1
                                                       \/ (NumberOf(Includes[inc[j]]) = 99 /\ Name(Includes[inc[j]]) = Wikis[k].name)

\* each path given is a wiki of its own for the time of the command: the directory, or that of the file
HomeHtml == P("home/vimwiki_html")
Temp(g) == [path |-> IF Given[g][2] = "file" THEN FrontOf(GivenPath(g)) ELSE GivenPath(g), html |-> HomeHtml, name |-> <<>>, ext |-> WikiExt]
AllWikis == Wikis \o [k \in 1 .. Len(ext) |-> Temp(ext[k])]
Owner(p) == WikiOfPath([wikis |-> AllWikis], p)

\* the files of a directory, or a file itself, with an extension
With(p, e) == { f \in 1 .. Len(Tree) : Has(f) /\ IsPrefixOf(p, Tree[f]) /\ ExtOf(Tree[f][Len(Tree[f])]) = e }
Doc(f) == LET p == Tree[f] o == Owner(p) w == AllWikis[o] IN
          << f, o, FileAt(w.html, <<>>, SubSeq(p, Len(w.path) + 1, Len(p)), HTML)[2] >>
\* a sequence of a set, in some order
Listed(S) == SetToSeq(S)
RECURSIVE Joined(_)
Joined(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Joined(Tail(ss))

\* every conversion, as often as it happens
Work == IF ext = <<>>
        THEN Joined([k \in 1 .. Len(wl) |-> IF Selected(k) THEN Listed(With(Wikis[k].path, Wikis[k].ext)) ELSE <<>>])
        ELSE Joined([k \in 1 .. Len(ext) |-> Listed(With(GivenPath(ext[k]), WikiExt))])
Docs == LET all == Work IN [k \in 1 .. Len(all) |-> Doc(all[k])]
STYLE == Name("style.css")
Styles == IF "css" \notin flags \/ "stdout" \in flags THEN {}
          ELSE IF ext # <<>> THEN { Append(HomeHtml, STYLE) }
          ELSE { Append(Wikis[k].html, STYLE) : k \in { j \in 1 .. Len(wl) : Selected(j) } }

(******************************* inspecting ********************************)
Loaded == [k \in 1 .. Len(AllWikis) |-> [ index |-> k - 1, name |-> AllWikis[k].name, path |-> AllWikis[k].path,
                                          files |-> With(AllWikis[k].path, AllWikis[k].ext) ]]
Parsed == SelectSeq(Loaded, LAMBDA w : w.index >= Len(wl) \/ Selected(w.index + 1))
Queries == << "$", "$.wikis[*].index", "$.wikis[*].name", "$.wikis[*].path", "$..checksum", "$.wikis[*].files[*].path", "$.wikis[0].files[*].data",
              "$.nothing", "$.wikis[?(@.index == 1)].name" >>

(******************************* formatting ********************************)
\* the extensions asked for in directories; a file given is formatted whatever it is called
ExtSets == << {}, {"wiki"}, {"md"}, {"wiki", "md"}, {"txt"}, {"WIKI", "bak"} >>
Exts == LET X == UNION { ExtSets[k] : k \in { j \in 1 .. Len(ExtSets) : EFlag(j) \in flags } } IN IF X = {} THEN {"wiki"} ELSE X
Touched(g) == IF Given[g][2] = "file" THEN { f \in 1 .. Len(Tree) : Tree[f] = GivenPath(g) }
              ELSE UNION { With(GivenPath(g), Name(e)) : e \in Exts }
\* up to the first path that is not there
Before == IF AnyMissing THEN (CHOOSE k \in 1 .. Len(ext) : Missing(ext[k]) /\ \A j \in 1 .. k-1 : ~Missing(ext[j])) - 1 ELSE Len(ext)
Formatted == Joined([k \in 1 .. Before |-> Listed(Touched(ext[k]))])

(***************************** the state ***********************************)
FlagChoices == CASE Mode = "convert" -> {"css", "stdout"}
                 [] Mode = "inspect" -> {"out"} \cup { QFlag(k) : k \in 1 .. Len(Queries) }
                 [] OTHER -> {"inline", "twice"} \cup { EFlag(k) : k \in 2 .. Len(ExtSets) }
Start == CASE Mode = "convert" -> {{}} [] Mode = "inspect" -> { {QFlag(k)} : k \in 1 .. Len(Queries) } [] OTHER -> {{}, {"inline"}}
Distinct(s) == Cardinality({ s[k] : k \in 1 .. Len(s) }) = Len(s)
Size == Len(wl) + Len(inc) + Len(ext) + Cardinality(flags) + Cardinality(drop)

Init == /\ inc = <<>> /\ ext = <<>> /\ drop = {} /\ flags \in Start
        /\ wl \in IF Mode = "format" THEN {<<1>>} ELSE { <<k>> : k \in 1 .. Len(Offered) }
AddWiki == \E k \in 1 .. Len(Offered) : wl' = Append(wl, k) /\ Distinct(wl') /\ UNCHANGED << inc, ext, flags, drop >>
AddInclude == \E k \in 1 .. Len(Includes) : inc' = Append(inc, k) /\ Distinct(inc') /\ UNCHANGED << wl, ext, flags, drop >>
AddPath == \E k \in 1 .. Len(Given) : ext' = Append(ext, k) /\ UNCHANGED << wl, inc, flags, drop >>
AddFlag == \E x \in FlagChoices : x \notin flags /\ flags' = flags \cup {x} /\ UNCHANGED << wl, inc, ext, drop >>
               /\ (Mode = "inspect" => x = "out")
Drop == \E f \in 1 .. Len(Tree) : f \notin drop /\ drop' = drop \cup {f} /\ UNCHANGED << wl, inc, ext, flags >>
\* which wikis of a temporary kind a filter lets through is not said
Allowed == ~(inc' # <<>> /\ ext' # <<>> /\ Mode = "inspect")
Next == /\ Size < Depth /\ (AddPath \/ AddFlag \/ (Mode # "format" /\ (AddWiki \/ AddInclude))) /\ Allowed

Pick(S) == RandomElement(S)
InitSim == Init
NextSim == /\ Size < Depth
           /\ \E k \in {Pick(1 .. 10)} :
                CASE k <= 3 /\ Mode # "format" -> \E w \in {Pick(1 .. Len(Offered))} : wl' = (IF Len(wl) < 5 THEN Append(wl, w) ELSE wl) /\ UNCHANGED << inc, ext, flags, drop >>
                  [] k \in {4, 5} /\ Mode # "format" /\ (Mode = "convert" \/ ext = <<>>) ->
                       \E i \in {Pick(1 .. Len(Includes))} : inc' = Append(inc, i) /\ UNCHANGED << wl, ext, flags, drop >>
                  [] k = 6 /\ (Mode # "inspect" \/ inc = <<>>) -> \E g \in {Pick(1 .. Len(Given))} : ext' = Append(ext, g) /\ UNCHANGED << wl, inc, flags, drop >>
                  [] k = 7 -> \E x \in {IF Mode = "inspect" THEN "out" ELSE Pick(FlagChoices)} : flags' = flags \cup {x} /\ UNCHANGED << wl, inc, ext, drop >>
                  [] OTHER -> \E f \in {Pick(1 .. Len(Tree))} : drop' = drop \cup {f} /\ UNCHANGED << wl, inc, ext, flags >>

(**************************** what is promised *****************************)
DocsSound(docs) ==
  /\ \A k \in 1 .. Len(docs) :
       LET d == docs[k] IN
       \* in a wiki that has the file, below its output
       /\ IsPrefixOf(AllWikis[d[2]].path, Tree[d[1]]) /\ IsPrefixOf(AllWikis[d[2]].html, d[3])
       /\ ExtOf(d[3][Len(d[3])]) = HTML
  \* all that is asked for, and nothing else
  /\ (ext = <<>> => \A f \in 1 .. Len(Tree) :
        (\E k \in 1 .. Len(docs) : docs[k][1] = f) <=> Has(f) /\ \E k \in 1 .. Len(wl) : Selected(k) /\ IsPrefixOf(Wikis[k].path, Tree[f])
                                                                         /\ ExtOf(Tree[f][Len(Tree[f])]) = Wikis[k].ext)
Case(docs) ==
  LET base == [ mode |-> Mode, tree |-> [f \in 1 .. Len(Tree) |-> << FileNames[f], Has(f) >>], wikis |-> AllWikis, own |-> Len(wl), missing |-> AnyMissing,
                inc |-> [k \in 1 .. Len(inc) |-> Includes[inc[k]]], ext |-> [k \in 1 .. Len(ext) |-> Given[ext[k]][1]],
                flags |-> SetToSeq({ x \in flags : x \in {"css", "stdout", "out", "inline", "twice"} }) ]
  IN CASE Mode = "convert" -> base @@ [ docs |-> docs, styles |-> SetToSeq(Styles) ]
       [] Mode = "inspect" -> base @@ [ query |-> Queries[CHOOSE n \in 1 .. Len(Queries) : QFlag(n) \in flags], parsed |-> Parsed ]
       [] OTHER -> base @@ [ exts |-> SetToSeq(UNION { ExtSets[k] : k \in { j \in 1 .. Len(ExtSets) : EFlag(j) \in flags } }), formatted |-> Formatted ]
EmitOf(docs) == (Mode = "convert" => DocsSound(docs)) /\ PrintT(<<"E", ToJson(Case(docs))>>)
EmitRun == EmitOf(IF Mode = "convert" THEN Docs ELSE <<>>)
EmitAtEnd == Size < Depth \/ EmitRun
=============================================================================
