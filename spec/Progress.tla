------------------------------ MODULE Progress ------------------------------
(***************************************************************************)
(* Items with checkboxes.  The state is the list written so far, one item  *)
(* a step: << depth, mark, fresh >>, fresh saying that it starts another   *)
(* list below its parent instead of continuing the one that is there.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, D, MarkSet
VARIABLE items
Marks == CASE MarkSet = "all" -> {"", " ", ".", "o", "O", "X", "-"}
           [] MarkSet = "five" -> {"", "-", " ", "O", "X"}
           [] MarkSet = "three" -> {"", "-", ".", "X"}
Depth(k) == items[k][1]
\* the parent of an item: the last one before it that is one level up
RECURSIVE Back(_,_)
Back(k, d) == IF k = 0 THEN 0 ELSE IF Depth(k) = d THEN k ELSE IF Depth(k) < d THEN 0 ELSE Back(k-1, d)
Parent(k) == IF Depth(k) = 0 THEN 0 ELSE Back(k-1, Depth(k) - 1)
Kids(k) == { j \in k+1 .. Len(items) : Parent(j) = k }

Init == items = <<>>
Add(d, m, f) == items' = Append(items, << d, m, f >>)
Next == /\ Len(items) < N
        /\ IF items = <<>> THEN \E m \in Marks : Add(0, m, FALSE)
           ELSE LET last == items[Len(items)][1] IN
                \E d \in 0 .. (IF last < D THEN last + 1 ELSE D), m \in Marks, f \in BOOLEAN :
                   /\ f => (0 < d /\ d <= last)
                   /\ Add(d, m, f)
NextSim == /\ Len(items) < N
           /\ IF items = <<>> THEN \E m \in {RandomElement(Marks)} : Add(0, m, FALSE)
              ELSE LET last == items[Len(items)][1] IN
                \E d \in {RandomElement(0 .. (IF last < D THEN last + 1 ELSE D))},
                   m \in {RandomElement(Marks)}, f \in {RandomElement(1 .. 4)} :
                   Add(d, m, f = 1 /\ 0 < d /\ d <= last)

\* many items below one, one below many, and many levels
Alike(n, d, m1, m2) == [k \in 1 .. n |-> << d, IF k % 3 = 1 THEN m1 ELSE m2, FALSE >>]
LInit == items = <<>>
LNext == /\ items = <<>>
         /\ \E n \in {12, 40, 130, 270}, m1 \in Marks, m2 \in Marks :
               \/ items' = << << 0, "X", FALSE >> >> \o Alike(n, 1, m1, m2)
               \/ items' = << << 0, "", FALSE >>, << 1, "o", FALSE >> >> \o Alike(n, 2, m1, m2) \o << << 1, " ", FALSE >>, << 0, ".", FALSE >> >>
               \/ n < 13 /\ \E j \in {4, 8} : items' = [k \in 1 .. j |-> << k - 1, IF k < j THEN m1 ELSE m2, FALSE >>]

\* percentages as fractions in lowest terms
RECURSIVE Gcd(_,_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Frac(n, d) == LET g == Gcd(n, d) IN << n \div g, d \div g >>
Plus(x, y) == Frac(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN <<0, 1>> ELSE Plus(s[1], Sum(Tail(s)))
Own(m) == CASE m = " " -> << <<0,1>> >> [] m = "." -> << <<1,4>> >> [] m = "o" -> << <<1,2>> >>
            [] m = "O" -> << <<3,4>> >> [] m = "X" -> << <<1,1>> >> [] OTHER -> <<>>
\* << >> or << percentage >>
RECURSIVE Of(_)
Of(k) ==
  LET K == Kids(k)
      RECURSIVE Collect(_)
      Collect(j) == IF j > Len(items) THEN <<>>
                    ELSE (IF j \in K THEN Of(j) ELSE <<>>) \o Collect(j+1)
      ps == Collect(k+1)
  IN IF ps = <<>> THEN Own(items[k][2])
     ELSE << Frac(Sum(ps)[1], Sum(ps)[2] * Len(ps)) >>
Class(m) == CASE m = " " -> "done0" [] m = "." -> "done1" [] m = "o" -> "done2" [] m = "O" -> "done3"
              [] m = "X" -> "done4" [] m = "-" -> "rejected" [] OTHER -> ""

\* the same by a table of parents
RECURSIVE OfP(_,_)
OfP(par, k) ==
  LET RECURSIVE Collect(_)
      Collect(j) == IF j > Len(items) THEN <<>> ELSE (IF par[j] = k THEN OfP(par, j) ELSE <<>>) \o Collect(j+1)
      ps == IF \E j \in k+1 .. Len(items) : par[j] = k THEN Collect(k+1) ELSE <<>>
  IN IF ps = <<>> THEN Own(items[k][2])
     ELSE LET t == Sum(ps) IN << Frac(t[1], t[2] * Len(ps)) >>

\* progress lies between that of the least and the most advanced leaf; nothing but
\* rejected and checkbox-less leaves gives none
RECURSIVE Leaves(_)
Leaves(k) == IF Kids(k) = {} THEN {k} ELSE UNION { Leaves(j) : j \in Kids(k) }
Le(x, y) == x[1] * y[2] <= y[1] * x[2]
Sane(k) ==
  LET p == Of(k)
      L == { j \in Leaves(k) : Own(items[j][2]) # <<>> }
      E == { j \in k .. Len(items) : Own(items[j][2]) # <<>> /\ (j = k \/ Depth(j) > Depth(k)) } IN
  /\ p # <<>> => \E x, y \in E : Le(Own(items[x][2])[1], p[1]) /\ Le(p[1], Own(items[y][2])[1])
  /\ L # {} => p # <<>>
Emit == /\ \A k \in 1 .. Len(items) : Sane(k)
        /\ items # <<>> =>
             PrintT(<<"E", ToJson([items |-> items,
                progress |-> [k \in 1 .. Len(items) |-> Of(k)],
                class |-> [k \in 1 .. Len(items) |-> Class(items[k][2])]])>>)
EmitTable(par) == LET pr == [k \in 1 .. Len(items) |-> OfP(par, k)] IN
     PrintT(<<"E", ToJson([items |-> items, progress |-> pr, class |-> [k \in 1 .. Len(items) |-> Class(items[k][2])]])>>)
EmitLong == items # <<>> => EmitTable(TLCEval([k \in 1 .. Len(items) |-> Parent(k)]))
=============================================================================
