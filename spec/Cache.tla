------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* The tool run again and again over pages that change, with a cache       *)
(* directory that others damage.  A step is an edit of a page, harm done   *)
(* to the cache, or a run; the state is what every file holds.  Whatever   *)
(* happened before, a run writes for each page of the selected wikis the   *)
(* output of the text the page has now.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* length of histories
          T,        \* number of texts
          Scope     \* "small" or "all": which pages, harm and runs there are

VARIABLES hist, files, cache, stray, dir, out
vars == << hist, files, cache, stray, dir, out >>

\* a page per wiki, and one more in a directory of the first
Places == IF Scope = "small" THEN {"a", "b"} ELSE {"a", "b", "d/a"}
WikiOf(p) == IF p = "b" THEN 1 ELSE 0
Texts == 1 .. T
\* what is done to an entry of the cache so that it can no longer be read as a page
Hows == IF Scope = "small" THEN {"half"} ELSE {"half", "empty", "junk", "more", "shape", "locked", "dir"}
Runs == IF Scope = "small" THEN {"plain", "keep", "off", "only0"}
        ELSE {"plain", "keep", "off", "only0", "only1", "keep1", "off1", "off1", "inspect", "look", "killed", "full", "shut"}
Cached(r) == r \notin {"off", "off1", "look"}
Prunes(r) == Cached(r) /\ r \notin {"keep", "keep1", "shut"}
Converts(r) == r \notin {"inspect", "look"}
Selects(r) == CASE r = "only0" -> {0} [] r \in {"only1", "keep1", "off1"} -> {1} [] OTHER -> {0, 1}

\* the state of an entry: "none"; "good": it holds the page of its text; "bad": it is not readable;
\* "wall": a directory is in its place; "any": one cannot tell
Cold == [t \in Texts |-> "none"]
Warm == [t \in Texts |-> "good"]
First == [p \in Places |-> IF p = "a" THEN 1 ELSE IF p = "b" THEN 2 ELSE 0]

Init == /\ out = [p \in Places |-> 0] /\ stray = "no" /\ files = First
        /\ \/ hist = << <<"cold">> >> /\ dir = FALSE /\ cache = Cold
           \/ hist = << <<"warm">> >> /\ dir = TRUE /\ cache = Warm

Did(a) == hist' = Append(hist, a)
Write(p, t) == files[p] # t /\ files' = [files EXCEPT ![p] = t] /\ Did(<<"write", p, t>>) /\ UNCHANGED << cache, stray, dir, out >>
Delete(p) == files[p] # 0 /\ files' = [files EXCEPT ![p] = 0] /\ Did(<<"delete", p>>) /\ UNCHANGED << cache, stray, dir, out >>
Move(p, q) == /\ p # q /\ files[p] # 0 /\ files' = [files EXCEPT ![p] = 0, ![q] = files[p]]
              /\ Did(<<"move", p, q>>) /\ UNCHANGED << cache, stray, dir, out >>
Harm(t, how) == /\ cache[t] # "wall" /\ cache' = [cache EXCEPT ![t] = IF how = "dir" THEN "wall" ELSE "bad"] /\ dir' = TRUE
                /\ Did(<<"harm", t, how>>) /\ UNCHANGED << files, stray, out >>
Lose(t) == cache[t] # "none" /\ cache' = [cache EXCEPT ![t] = "none"] /\ Did(<<"lose", t>>) /\ UNCHANGED << files, stray, dir, out >>
Stray == stray # "yes" /\ stray' = "yes" /\ dir' = TRUE /\ Did(<<"stray">>) /\ UNCHANGED << files, cache, out >>
Wipe == dir /\ dir' = FALSE /\ stray' = "no" /\ cache' = Cold /\ Did(<<"wipe">>) /\ UNCHANGED << files, out >>

Current(r) == { files[p] : p \in { q \in Places : files[q] # 0 /\ WikiOf(q) \in Selects(r) } }

\* an entry after a run
Entry(r, t) ==
  IF ~Cached(r) THEN cache[t]
  ELSE IF cache[t] = "wall" THEN "wall"
  ELSE IF t \in Current(r)
  THEN \* a run that is killed, has no room, or may not write leaves it as it pleases, but for a good one
       IF cache[t] # "good" /\ r \in {"killed", "full", "shut"} THEN "any" ELSE "good"
  ELSE IF cache[t] = "none" THEN "none"
  ELSE IF r = "killed" THEN "any"
  ELSE IF Prunes(r) THEN "none" ELSE cache[t]

Run(r) ==
  /\ (r = "shut" => dir)
  /\ UNCHANGED files
  /\ dir' = (dir \/ Cached(r))
  /\ cache' = [t \in Texts |-> Entry(r, t)]
  /\ stray' = IF stray = "no" \/ ~Prunes(r) THEN stray ELSE IF r = "killed" THEN "any" ELSE "no"
  \* T + 1: one cannot tell
  /\ out' = [p \in Places |-> IF ~Converts(r) \/ files[p] = 0 \/ WikiOf(p) \notin Selects(r) THEN out[p]
                             ELSE IF r = "killed" THEN T + 1 ELSE files[p]]
  /\ Did(<<"run", r, [cache |-> cache', stray |-> stray', dir |-> dir', out |-> out', files |-> files]>>)

Step == \/ \E p \in Places, t \in Texts : Write(p, t)
        \/ \E p \in Places : Delete(p)
        \/ \E p, q \in Places : Move(p, q)
        \/ \E t \in Texts, how \in Hows : Harm(t, how)
        \/ \E t \in Texts : Lose(t)
        \/ Stray \/ Wipe
        \/ \E r \in Runs : Run(r)
\* (the last step is a run: what comes after the last run is not seen)
Next == Len(hist) <= N /\ IF Len(hist) = N THEN \E r \in Runs : Run(r) ELSE Step
Walk == \E k \in {RandomElement(1 .. 10)} :
          IF k > 4 \/ Len(hist) = N THEN \E r \in {RandomElement(Runs)} : IF r = "shut" /\ ~dir THEN Run("plain") ELSE Run(r)
          ELSE IF k = 1 THEN \E t \in {RandomElement(Texts)}, how \in {RandomElement(Hows)} : IF cache[t] = "wall" THEN Lose(t) ELSE Harm(t, how)
          ELSE IF k = 2 /\ stray = "no" THEN Stray
          ELSE IF k = 3 /\ dir THEN \E t \in {RandomElement(Texts)} : IF cache[t] = "none" THEN Wipe ELSE Lose(t)
          ELSE \E p \in {RandomElement(Places)}, q \in {RandomElement(Places)}, t \in {RandomElement(Texts)}, j \in {RandomElement(1 .. 4)} :
                 IF files[p] = t THEN IF j = 1 \/ p = q THEN Delete(p) ELSE Move(p, q) ELSE Write(p, t)
NextSim == Len(hist) <= N /\ Walk

Last == hist[Len(hist)]
\* the cache and the outputs after any history
Consistent ==
  /\ (~dir => cache = Cold /\ stray = "no")
  /\ \A p \in Places : out[p] \in 0 .. T + 1
After(r) ==
  \* every page of the selected wikis has its output; with pruning, nothing but what is current is left
  /\ (Converts(r) /\ r # "killed" => \A p \in Places : files[p] # 0 /\ WikiOf(p) \in Selects(r) => out[p] = files[p])
  /\ (Prunes(r) /\ r \notin {"killed", "full"} => { t \in Texts : cache[t] \notin {"none", "wall"} } \subseteq Current(r) /\ \A t \in Current(r) : cache[t] \in {"good", "wall"})
Sound == Consistent /\ (Last[1] = "run" => After(Last[2]))
EmitHist == /\ Sound
            /\ IF Len(hist) = N + 1 THEN PrintT(<<"E", ToJson([h |-> hist, T |-> T])>>) ELSE TRUE
=============================================================================
