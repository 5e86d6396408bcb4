----------------------------- MODULE TableApi ------------------------------
(***************************************************************************)
(* What a table answers.  A grid is a function from the positions of the   *)
(* existing cells (<< row, column >>, from 0) to their kinds.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AlignKinds == {"none", "lft", "ctr", "rgt"}
CellKinds == {"cell", "left", "up"} \cup AlignKinds
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y

RowCnt(g) == IF DOMAIN g = {} THEN 0 ELSE 1 + SetMax({ p[1] : p \in DOMAIN g })
ColCnt(g) == IF DOMAIN g = {} THEN 0 ELSE 1 + SetMax({ p[2] : p \in DOMAIN g })
\* row-major order
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE p \in S : \A q \in S \ {p} : Before(p, q)
                   IN << m >> \o InOrder(S \ {m})
RowSet(g, r) == { p \in DOMAIN g : p[1] = r }
ColSet(g, c) == { p \in DOMAIN g : p[2] = c }
DivRow(g, r) == RowSet(g, r) # {} /\ \A p \in RowSet(g, r) : g[p] \in AlignKinds
\* -1 if there is none
DivIdx(g) == LET S == { r \in 0 .. RowCnt(g) - 1 : DivRow(g, r) } IN
             IF S = {} THEN -1 ELSE SetMin(S)
RECURSIVE Upto(_,_)
Upto(a, b) == IF a > b THEN <<>> ELSE << a >> \o Upto(a+1, b)
HeaderRows(g) == IF DivIdx(g) = -1 THEN <<>> ELSE Upto(0, DivIdx(g) - 1)
BodyRows(g) == SelectSeq(Upto(DivIdx(g) + 1, RowCnt(g) - 1), LAMBDA r : ~DivRow(g, r))
ColAlign(g, c) ==
  LET S == { p \in ColSet(g, c) : g[p] \in AlignKinds } IN
  IF S = {} THEN "none" ELSE g[InOrder(S)[1]]
RECURSIVE Run(_,_,_,_,_)
\* how many cells of kind k follow p in direction d without a gap
Run(g, p, dr, dc, k) ==
  LET q == << p[1] + dr, p[2] + dc >> IN
  IF q \in DOMAIN g /\ g[q] = k THEN 1 + Run(g, q, dr, dc, k) ELSE 0
RowSpan(g, p) == IF p \in DOMAIN g /\ g[p] = "cell" THEN 1 + Run(g, p, 1, 0, "up") ELSE 0
ColSpan(g, p) == IF p \in DOMAIN g /\ g[p] = "cell" THEN 1 + Run(g, p, 0, 1, "left") ELSE 0

HasContent(g, S) == \E p \in S : g[p] = "cell"
\* everything at once
Api(g) ==
  LET R == RowCnt(g) Cc == ColCnt(g) IN
  [ rows |-> R, cols |-> Cc, len |-> Cardinality(DOMAIN g),
    div |-> DivIdx(g), head |-> HeaderRows(g), body |-> BodyRows(g),
    cells |-> InOrder(DOMAIN g),
    kinds |-> [k \in 1 .. Len(InOrder(DOMAIN g)) |-> g[InOrder(DOMAIN g)[k]]],
    byrow |-> [r \in 1 .. R + 1 |-> InOrder(RowSet(g, r-1))],
    bycol |-> [c \in 1 .. Cc + 1 |-> InOrder(ColSet(g, c-1))],
    divs |-> [r \in 1 .. R + 1 |-> DivRow(g, r-1)],
    aligns |-> [c \in 1 .. Cc + 1 |-> ColAlign(g, c-1)],
    spans |-> [r \in 1 .. R + 1 |-> [c \in 1 .. Cc + 1 |->
                << RowSpan(g, <<r-1, c-1>>), ColSpan(g, <<r-1, c-1>>) >>]] ]
=============================================================================
