------------------------------ MODULE Resolve ------------------------------
(***************************************************************************)
(* Where pages are written and where links lead: paths are sequences of    *)
(* components, a component is a sequence of characters.                    *)
(*                                                                         *)
(* A configuration is a record                                             *)
(*   wikis : sequence of [path, html, diary : paths, name : characters]    *)
(*   wi    : the wiki of the page, page : its path within that wiki        *)
(***************************************************************************)
EXTENDS Grammar, SequencesExt

DOT == <<".">>
DOTDOT == <<".", ".">>
HTML == <<"h","t","m","l">>

RECURSIVE LastDot(_,_)
LastDot(name, k) == IF k = 0 THEN 0 ELSE IF name[k] = "." THEN k ELSE LastDot(name, k-1)
\* a name without its extension; a leading dot starts no extension
Stem(name) == LET k == LastDot(name, Len(name)) IN
              IF k <= 1 THEN name ELSE SubSeq(name, 1, k-1)
ExtOf(name) == LET k == LastDot(name, Len(name)) IN
               IF k <= 1 THEN <<>> ELSE SubSeq(name, k+1, Len(name))
WithExt(name, ext) == IF ext = <<>> THEN Stem(name) ELSE Stem(name) \o DOT \o ext
FrontOf(p) == SubSeq(p, 1, Len(p) - 1)
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

\* following the steps from a place: << does it stay below the root?, place >>
RECURSIVE Steps(_,_)
Steps(p, segs) ==
  IF segs = <<>> THEN << TRUE, p >>
  ELSE IF segs[1] \in { <<>>, DOT } THEN Steps(p, Tail(segs))
  ELSE IF segs[1] = DOTDOT THEN IF p = <<>> THEN << FALSE, p >> ELSE Steps(FrontOf(p), Tail(segs))
  ELSE Steps(Append(p, segs[1]), Tail(segs))
Real(segs) == SelectSeq(segs, LAMBDA x : x \notin { <<>>, DOT })

\* the file written for something below a wiki, given by the steps from `from` within its output
\* (unspecified for a path whose last step names no file)
FileAt(html, from, segs, ext) ==
  LET r == Real(segs) IN
  IF r = <<>> THEN <<"odd">>
  ELSE IF r[Len(r)] = DOTDOT THEN <<"odd">>
  ELSE LET w == Steps(html \o from, segs) IN
       IF ~w[1] THEN <<"odd">>
       ELSE << "at", Append(FrontOf(w[2]), WithExt(w[2][Len(w[2])], ext)) >>

(***************************** link targets ********************************)
RECURSIVE SplitAt(_,_,_,_)
SplitAt(s, a, z, c) ==
  LET n == Find1(s, a, z, c) IN
  IF n = 0 THEN << SubSeq(s, a, z-1) >> ELSE << SubSeq(s, a, n-1) >> \o SplitAt(s, n+1, z, c)
\* an anchor with several parts is written with its parts joined
RECURSIVE JoinParts(_,_,_)
JoinParts(s, a, z) ==
  IF a >= z THEN <<>>
  ELSE IF s[a] = "#" THEN <<"-">> \o JoinParts(s, a+1, z)
  ELSE IF M3(s, a, z, "%", "2", "3") THEN <<"-">> \o JoinParts(s, a+3, z)
  ELSE <<s[a]>> \o JoinParts(s, a+1, z)
\* the parts of the URI reference a .. z-1
Target(s, a, z) ==
  LET c  == Scheme(s, a, z)
      p0 == IF c = 0 THEN a ELSE c + 1
      auth == M2(s, p0, z, "/", "/")
      p1 == IF auth THEN StopAt(s, p0+2, z, {"/", "?", "#"}) ELSE p0
      p2 == StopAt(s, p1, z, {"?", "#"})
      p3 == StopAt(s, p2, z, {"#"})
      abs == p1 < p2 /\ s[p1] = "/"
  IN [ scheme |-> IF c = 0 THEN <<>> ELSE SubSeq(s, a, c-1),
       auth |-> auth,
       abs |-> abs \/ auth,
       segs |-> SplitAt(s, IF abs THEN p1 + 1 ELSE p1, p2, "/"),
       query |-> p2 < p3,
       hasFrag |-> p3 < z,
       frag |-> JoinParts(s, p3 + 1, z) ]
FILE == <<"f","i","l","e">>
LOCALS == <<"l","o","c","a","l">>
IsLocal(t) == t.scheme \in { <<>>, FILE, LOCALS }
IsLocalAnchor(t) == /\ t.scheme = <<>> /\ ~t.auth /\ ~t.query /\ t.hasFrag
                    /\ \A k \in 1 .. Len(t.segs) : t.segs[k] = <<>>
IsDir(t) == t.segs[Len(t.segs)] = <<>>
INDEX == <<"i","n","d","e","x">>
Page0(t) == IF IsDir(t) THEN Append(t.segs, INDEX) ELSE t.segs

Cur(cfg) == cfg.wikis[cfg.wi]
PageDir(cfg) == FrontOf(cfg.page)
\* where the page itself is written
OutOf(cfg) == Cur(cfg).html \o PageDir(cfg) \o << WithExt(cfg.page[Len(cfg.page)], HTML) >>

At(x, frag) == IF x[1] = "odd" THEN x ELSE << "loc", x[2], frag >>
\* an absolute path that lies in the wiki itself names the file in the wiki
InWiki(w, segs) == IF w.path # <<>> /\ IsPrefixOf(w.path, Real(segs))
                   THEN SubSeq(Real(segs), Len(w.path) + 1, Len(Real(segs))) ELSE segs
Below(w, t, segs, ext, from) ==
  IF t.abs THEN FileAt(w.html, <<>>, InWiki(w, segs), ext) ELSE FileAt(w.html, from, segs, ext)

\* what a link refers to: << "loc", file, anchor >>, << "uri", a, z >> when it is kept as it
\* is written, << "err" >> for an unknown wiki, << "odd" >> where nothing is specified
WikiAt(s, r, cfg) ==
  LET t == Target(s, r[1], r[2]) IN
  IF IsLocal(t) /\ ~IsLocalAnchor(t)
  THEN IF t.auth THEN <<"odd">>
       ELSE At(Below(Cur(cfg), t, Page0(t), HTML, PageDir(cfg)), t.frag)
  ELSE << "uri", r[1], r[2] >>
TransclusionAt(s, r, cfg) ==
  LET t == Target(s, r[1], r[2])
      n == Real(t.segs) IN
  IF IsLocal(t)
  THEN IF t.auth THEN <<"odd">>
       ELSE IF n = <<>> THEN <<"odd">>
       ELSE LET f == Below(Cur(cfg), t, t.segs, ExtOf(n[Len(n)]), PageDir(cfg)) IN
            \* (a directory the page itself is in cannot be a file)
            IF f[1] = "at" /\ IsPrefixOf(f[2], FrontOf(OutOf(cfg))) THEN <<"odd">> ELSE At(f, <<>>)
  ELSE << "uri", r[1], r[2] >>
InterAt(s, r, w) ==
  LET t == Target(s, r[1], r[2]) IN
  IF t.auth \/ t.scheme # <<>> THEN <<"odd">>
  ELSE At(Below(w, t, Page0(t), HTML, <<>>), t.frag)
\* the number of the wiki N (0-based), if there is one
IndexedWiki(s, r, cfg) ==
  LET b == SkipZeros(s, r[1], r[2]) IN
  IF r[2] - b > 5 THEN 0
  ELSE LET n == NumOf(s, b, r[2], 0) IN IF n < Len(cfg.wikis) THEN n + 1 ELSE 0
NamedWiki(name, cfg) ==
  LET K == { k \in 1 .. Len(cfg.wikis) : cfg.wikis[k].name = name } IN
  IF K = {} \/ name = <<>> THEN 0 ELSE CHOOSE k \in K : \A j \in K : k <= j
IndexedAt(s, n, r, cfg) == LET k == IndexedWiki(s, n, cfg) IN
                           IF k = 0 THEN <<"err">> ELSE InterAt(s, r, cfg.wikis[k])
NamedAt(s, n, r, cfg) == LET k == NamedWiki(SubSeq(s, n[1], n[2]-1), cfg) IN
                         IF k = 0 THEN <<"err">> ELSE InterAt(s, r, cfg.wikis[k])

Chars(str) == [k \in 1 .. Len(str) |-> SubSeq(str, k, k)]
RECURSIVE Pad(_,_)
Pad(x, n) == IF Len(x) < n THEN Pad(<<"0">> \o x, n) ELSE x
DateChars(d) ==
  (IF d[1] /\ d[2] > 0 THEN <<"-">> ELSE IF d[2] > 9999 THEN <<"+">> ELSE <<>>)
  \o Pad(Chars(ToString(d[2])), 4) \o <<"-">> \o Pad(Chars(ToString(d[3])), 2) \o <<"-">> \o Pad(Chars(ToString(d[4])), 2)
DiaryAt(s, date, anc, cfg) ==
  << "loc", Cur(cfg).html \o Cur(cfg).diary \o << DateChars(date) \o DOT \o HTML >>,
     IF anc = NIL THEN <<>> ELSE JoinParts(s, anc[1], anc[2]) >>

(************************* what belongs where ******************************)
\* the innermost wiki a path lies in (the last such one, if several are configured alike)
WikiOfPath(cfg, p) ==
  LET K == { k \in 1 .. Len(cfg.wikis) : IsPrefixOf(cfg.wikis[k].path, p) } IN
  IF K = {} THEN 0
  ELSE CHOOSE k \in K : \A j \in K : Len(cfg.wikis[j].path) < Len(cfg.wikis[k].path)
                                     \/ (Len(cfg.wikis[j].path) = Len(cfg.wikis[k].path) /\ j <= k)
=============================================================================
