------------------------------- MODULE Graphs -------------------------------
(* Struct reference graphs as documents. VB_KIND "all": every labelled graph *)
(* on VB_SIZE structs, an edge being absent, direct or through a list        *)
(* (VB_LISTS = 1), numbered VB_FROM .. VB_FROM + VB_N - 1 in base 2 or 3;    *)
(* "family": chains, rings with tails, ladders of diamonds, complete and     *)
(* random orders, with or without a closing edge, declared in any order.     *)
EXTENDS WellFormed, Json, IOUtils, Randomization

N == atoi(IOEnv.VB_N)
KIND == IOEnv.VB_KIND
S == atoi(IOEnv.VB_SIZE)
LISTS == IOEnv.VB_LISTS = "1"
FROM == atoi(IOEnv.VB_FROM)
Rnd(z, A) == RandomElement(IF z < 0 THEN {} ELSE A)

Nm(i) == "S" \o ToString(i)
\* edges: set of <<from, to, list?>>; leaf: type of the member every struct has besides
StructOf(i, es, leaf) ==
  LET mine == SetToSeq({e \in es : e[1] = i}) IN
  Tab(<<<<"_name", Str(Nm(i))>>>> \o [j \in 1..Len(mine) |-> <<"m" \o ToString(j), Str(IF mine[j][3] THEN "[" \o Nm(mine[j][2]) \o "]" ELSE Nm(mine[j][2]))>>]
      \o (IF leaf = "" THEN <<>> ELSE <<<<"leaf", Str(leaf)>>>>))
Doc(order, es, leaf, uses) ==
  [text |-> "ok", top |-> <<<<"structs", Arr([i \in 1..Len(order) |-> StructOf(order[i], es, leaf)])>>,
                            <<"messages", Arr(<<Tab(<<<<"_name", Str("Msg")>>>> \o [i \in 1..Len(uses) |-> <<"u" \o ToString(i), Str(uses[i])>>])>>)>>>>]

\* ---- every graph on S structs
Digit(c, i) == LET b == IF LISTS THEN 3 ELSE 2 IN (c \div (b^i)) % b
AllEdges(c) == {<<i, j, Digit(c, (i - 1) * S + (j - 1)) = 2>> : i, j \in {x \in 1..S : TRUE}} 
EdgesOf(c) == {e \in AllEdges(c) : Digit(c, (e[1] - 1) * S + (e[2] - 1)) > 0}
Exhaust(c) == LET es == EdgesOf(c) IN Doc([i \in 1..S |-> i], es, <<"byte", "string", "">>[1 + (c % 3)], <<<<Nm(1)>>, <<"[" \o Nm(S) \o "]">>, <<>>>>[1 + ((c \div 3) % 3)])

\* ---- families
RECURSIVE Shuffle(_)
Shuffle(s) == IF s = <<>> THEN <<>> ELSE LET i == TLCEval(RandomElement(1..Len(s))) IN <<s[i]>> \o Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
Ring(a, b) == {<<i, i + 1, FALSE>> : i \in a..(b - 1)} \cup {<<b, a, TRUE>>}
Chain(c) == {<<i, i + 1, (i % 3) = 0>> : i \in 1..(c - 1)}
\* c rungs: every struct of a rung uses both structs of the next
Ladder(c) == UNION {{<<2*i - 1, 2*i + 1, FALSE>>, <<2*i - 1, 2*i + 2, FALSE>>, <<2*i, 2*i + 1, TRUE>>, <<2*i, 2*i + 2, FALSE>>} : i \in 1..(c - 1)}
Full(c) == {<<i, j, ((i + j) % 4) = 0>> : i, j \in 1..c} 
Upper2(es) == {e \in es : e[1] < e[2]}
RandomOrder(z, c, p) == {e \in Upper2(Full(c)) : Rnd(z + e[1] + e[2], 1..p) = 1}
Back(z, c) == LET i == TLCEval(Rnd(z, 1..c)) j == TLCEval(Rnd(z, 1..i)) IN <<i, j, Rnd(z, BOOLEAN)>>
Families == <<"chain", "ring", "tail", "head", "ladder", "deepladder", "full", "order", "orderback", "two", "order", "orderback">>
Family(z) ==
  LET f == Families[1 + (z % Len(Families))]
      c == TLCEval(CASE f \in {"chain", "ring", "tail", "head"} -> Rnd(z, 2..24) [] f = "ladder" -> Rnd(z, 2..5) [] f = "deepladder" -> Rnd(z, 30..60) [] f = "full" -> Rnd(z, 3..9) [] OTHER -> Rnd(z, 4..14))
      w == TLCEval(Rnd(z, 1..c))
      es == TLCEval(CASE f = "chain" -> Chain(c) [] f = "ring" -> Ring(1, c)
              [] f = "tail" -> Chain(c) \cup Ring(w, c)     \* the first structs lead into the ring
              [] f = "head" -> Chain(c) \cup Ring(1, w)     \* the ring leads to the last structs
              [] f \in {"ladder", "deepladder"} -> Ladder(c) \cup (IF Rnd(z, 1..3) = 1 THEN {<<2 * c, Rnd(z, 1..(2 * c)), FALSE>>} ELSE {})
              [] f = "full" -> Upper2(Full(c)) \cup (IF Rnd(z, 1..3) = 1 THEN {Back(z, c)} ELSE {})
              [] f = "order" -> RandomOrder(z, c, 4) [] f = "orderback" -> RandomOrder(z, c, 4) \cup {Back(z, c)}
              [] OTHER -> Chain(w) \cup Ring(w + 1, c + 1))   \* a ring that nothing else refers to
      count == CASE f \in {"ladder", "deepladder"} -> 2 * c [] f = "two" -> c + 1 [] OTHER -> c
      order == IF Rnd(z, 1..4) = 1 THEN [i \in 1..count |-> i] ELSE IF Rnd(z, 1..4) = 1 THEN [i \in 1..count |-> count + 1 - i] ELSE TLCEval(Shuffle([i \in 1..count |-> i]))
      uses == [i \in 1..Rnd(z, 0..2) |-> (IF Rnd(z + i, 1..2) = 1 THEN Nm(Rnd(z + i, 1..count)) ELSE "[" \o Nm(Rnd(z + i, 1..count)) \o "]")] IN
  [doc |-> TLCEval(Doc(order, es, <<"byte", "string", "", "uint16", "[float]">>[Rnd(z, 1..5)], uses)), f |-> f]

VARIABLES n, doc, alt, big
vars == <<n, doc, alt, big>>
Init == n = 0 /\ doc = [text |-> "ok", top |-> <<>>] /\ alt = "" /\ big = FALSE
Next == n < N /\ n' = n + 1
  /\ IF KIND = "all" THEN doc' = TLCEval(Exhaust(FROM + n)) /\ alt' = "graph " \o ToString(FROM + n) /\ big' = FALSE
     ELSE LET x == TLCEval(Family(n)) IN doc' = x.doc /\ alt' = x.f \o " " \o ToString(n) /\ big' = (x.f = "deepladder")
Emit == n > 0 => PrintT("@@" \o ToJson([k |-> "doc", doc |-> doc, alt |-> alt, load |-> big]))
\* acyclic in the sense of WellFormed is having an order in which no struct uses itself or a later one
Perms == {p \in [1..S -> 1..S] : \A i, j \in 1..S : i # j => p[i] # p[j]}
TopoAgrees == (n > 0 /\ KIND = "all" /\ S <= 3) =>
  LET es == EdgesOf(FROM + n - 1) IN Acyclic(Section(doc.top, "structs")) <=> \E p \in Perms : \A e \in es : p[e[2]] < p[e[1]]
=============================================================================
