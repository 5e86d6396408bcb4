------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* A table filled cell by cell, then walked: the iterator over its cells,  *)
(* over one row or over one column is a cursor that moves from cell to     *)
(* cell.  The invariants say what a walk must do (each existing cell once, *)
(* in order, with exact counts); Emit hands the table and every walk to    *)
(* the harness, which makes the same table and the same steps.             *)
(***************************************************************************)
EXTENDS TableApi, TLC, Json
CONSTANTS R, Cs, KindSet      \* bounds; name of the set of kinds
VARIABLES grid, next,         \* next: how many positions have been decided
          walk                \* << what is walked, index, cells left, cells seen >>

Kinds == CASE KindSet = "all" -> CellKinds
           [] KindSet = "five" -> {"cell", "left", "up", "none", "rgt"}
           [] KindSet = "four" -> {"cell", "left", "up", "lft"}
           [] KindSet = "two" -> {"cell", "none"}
PosOf(n) == << n \div Cs, n % Cs >>
Walks == {"cells"} \X {0} \cup {"row"} \X (0 .. R) \cup {"col"} \X (0 .. Cs)
Left0(w) == CASE w[1] = "cells" -> InOrder(DOMAIN grid)
              [] w[1] = "row" -> InOrder(RowSet(grid, w[2]))
              [] w[1] = "col" -> InOrder(ColSet(grid, w[2]))

Init == grid = << >> /\ next = 0 /\ walk = << >>
Put == /\ next < R * Cs /\ next' = next + 1 /\ walk' = walk
       /\ \/ grid' = grid
          \/ \E k \in Kinds : grid' = [p \in DOMAIN grid \cup {PosOf(next)} |->
                                         IF p = PosOf(next) THEN k ELSE grid[p]]
Start == /\ next = R * Cs /\ walk = << >> /\ UNCHANGED << grid, next >>
         /\ \E w \in Walks : walk' = << w[1], w[2], Left0(w), << >> >>
Step == /\ walk # << >> /\ walk[3] # << >> /\ UNCHANGED << grid, next >>
        /\ walk' = << walk[1], walk[2], Tail(walk[3]), Append(walk[4], Head(walk[3])) >>
Next == Put \/ Start \/ Step
PutSim == /\ next < R * Cs /\ next' = next + 1 /\ walk' = walk
          /\ \E k \in {RandomElement(Kinds \cup {"missing"})} :
             grid' = IF k = "missing" THEN grid
                     ELSE [p \in DOMAIN grid \cup {PosOf(next)} |->
                                         IF p = PosOf(next) THEN k ELSE grid[p]]
NextSim == PutSim

Whole(w) == CASE w[1] = "cells" -> DOMAIN grid
              [] w[1] = "row" -> RowSet(grid, w[2])
              [] w[1] = "col" -> ColSet(grid, w[2])
Seen(w) == { w[4][k] : k \in 1 .. Len(w[4]) }
\* a walk sees each cell once, in order, and what is left is what it has not seen
WalkOK == walk # << >> =>
  /\ Cardinality(Seen(walk)) = Len(walk[4])
  /\ \A k \in 1 .. Len(walk[4]) - 1 : Before(walk[4][k], walk[4][k+1])
  /\ Seen(walk) \cap { walk[3][k] : k \in 1 .. Len(walk[3]) } = {}
  /\ Seen(walk) \cup { walk[3][k] : k \in 1 .. Len(walk[3]) } = Whole(walk)
\* rows are header, divider or body; spans stay inside the table and belong to one cell
Done == next = R * Cs /\ walk = << >>
RowsOK == Done =>
  LET H == HeaderRows(grid) B == BodyRows(grid) IN
  /\ { H[k] : k \in 1 .. Len(H) } \cup { B[k] : k \in 1 .. Len(B) }
        \cup { r \in 0 .. RowCnt(grid) - 1 : DivRow(grid, r) } = 0 .. RowCnt(grid) - 1
  /\ { H[k] : k \in 1 .. Len(H) } \cap { B[k] : k \in 1 .. Len(B) } = {}
  /\ \A p \in DOMAIN grid : /\ p[1] + RowSpan(grid, p) <= RowCnt(grid)
                            /\ p[2] + ColSpan(grid, p) <= ColCnt(grid)
                            /\ (RowSpan(grid, p) = 0) = (grid[p] # "cell")
Emit == (Done => WalkOK /\ RowsOK /\ PrintT(<<"E", ToJson([api |-> Api(grid)])>>)) /\ WalkOK
=============================================================================
