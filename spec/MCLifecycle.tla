----------------------------- MODULE MCLifecycle ----------------------------
(* Exhaustive model of the ownership rules over an abstract heap: reading    *)
(* allocates one block per non-empty string or list, in member order, and    *)
(* stops where it fails; releasing walks the object. Every history of calls  *)
(* that the rules allow ends, when everything is released, with no block     *)
(* live, and no block is released twice.                                     *)
EXTENDS Lifecycle
CONSTANTS MaxOps
Proto == [lst |-> "byte", str |-> "byte", enums |-> <<[name |-> "E", entries |-> <<<<"p", 1>>, <<"q", 9>>>>]>>,
  structs |-> <<[name |-> "S", members |-> <<<<"t", "string", FALSE>>, <<"e", "E", FALSE>>>>]>>,
  messages |-> <<[name |-> "A", members |-> <<<<"s", "string", FALSE>>, <<"l", "S", TRUE>>>>], [name |-> "B", members |-> <<<<"n", "byte", FALSE>>>>]>>]
P == Norm(Proto)
Val == <<<<65>>, <<<<<<66>>, 1>>>>>>
B1 == Enc(P, 1, Val)
Bad1 == [B1 EXCEPT ![Len(B1)] = 3]
Inputs == {<<1, B1>>, <<1, SubSeq(B1, 1, 4)>>, <<1, Bad1>>, <<2, <<7>>>>, <<2, <<>>>>}
Streams == {<<1>> \o B1 \o <<2, 7>>, <<2, 7, 1>> \o Bad1, <<2, 7, 9>>, <<>>}
VARIABLES s, heap, n, bad
vars == <<s, heap, n, bad>>
\* blocks a value owns (one per non-empty string or list)
RECURSIVE Blocks(_, _)
BlocksVal(t, v) == CASE P.kind[t] = "string" -> IF v = <<>> THEN 0 ELSE 1 [] P.kind[t] = "struct" -> Blocks(P.mem[t], v) [] OTHER -> 0
Blocks(ms, vs) == Sum([i \in 1..Len(vs) |-> IF ms[i].list THEN (IF vs[i] = <<>> THEN 0 ELSE 1) + Sum([j \in 1..Len(vs[i]) |-> BlocksVal(ms[i].t, vs[i][j])]) ELSE BlocksVal(ms[i].t, vs[i])])
Owned(m, v) == Blocks(P.msg[m], v)
ListOwned(items) == 1 + Sum([i \in 1..Len(items) |-> 1 + Owned(items[i].m, items[i].v)])
Init == s = Start /\ heap = [h \in 1..NSlots + NLists |-> 0] /\ n = 0 /\ bad = FALSE
\* blocks the holder of c has after c: a failed read keeps what it allocated before (any prefix)
Own(c) ==
  LET r == Result(P, s, c) t == After(P, s, c) IN
  CASE c.o \in {"c"} -> IF c.f > 0 THEN {0} ELSE {1}
    [] c.o = "s" -> {0}
    [] c.o = "b" -> {1 + Owned(c.m, c.v)}
    [] c.o = "r" -> LET self == IF s.obj[c.i].heap THEN 1 ELSE 0 IN
                    IF t.obj[c.i].st = "full" THEN {self + Owned(s.obj[c.i].m, r.v)} ELSE self..self + (IF s.obj[c.i].m = 1 THEN Owned(1, IF r.ok THEN r.v ELSE Val) ELSE 0)
    [] c.o = "k" -> {IF s.obj[c.i].heap THEN 1 ELSE 0}
    [] c.o \in {"d", "x"} -> {0}
    [] c.o = "P" -> IF t.lst[c.i].st = "full" THEN {ListOwned(r.items)} ELSE 0..ListOwned(r.items)
    [] c.o = "U" -> IF t.lst[c.i].st = "full" THEN {ListOwned(r.items)} ELSE {0}
    [] c.o \in {"D", "I"} -> {0}
    [] OTHER -> {}
Do(c) ==
  /\ Allowed(s, c.o, c.i) /\ n < MaxOps /\ n' = n + 1 /\ s' = After(P, s, c)
  /\ LET h == Holder(c) IN
     IF h = 0 \/ Own(c) = {} THEN UNCHANGED <<heap, bad>>
     ELSE /\ \E k \in Own(c) : heap' = [heap EXCEPT ![h] = k]
          \* nothing but an allocation may be asked of a holder that already owns content, and nothing owned is forgotten
          /\ bad' = (bad \/ (c.o \in {"c", "s", "b"} /\ heap[h] # 0) \/ (c.o = "r" /\ heap[h] # (IF s.obj[c.i].heap THEN 1 ELSE 0)) \/ (c.o \in {"P", "U"} /\ heap[h] # 0))
Next ==
  \/ \E i \in Slots, m \in 1..2, f \in 0..1 : Do([o |-> "c", i |-> i, m |-> m, f |-> f])
  \/ \E i \in Slots, m \in 1..2 : Do([o |-> "s", i |-> i, m |-> m, f |-> 0])
  \/ \E i \in Slots : Do([o |-> "b", i |-> i, m |-> 1, v |-> Val, f |-> 0])
  \/ \E i \in Slots, x \in Inputs, f \in 0..1 : s.obj[i].m = x[1] /\ Do([o |-> "r", i |-> i, b |-> x[2], f |-> f])
  \/ \E i \in Slots, o \in {"w", "g", "k", "d", "x"} : Do([o |-> o, i |-> i, tag |-> 0, f |-> 0])
  \/ \E i \in Lists, x \in Streams, f \in 0..1 : Do([o |-> "P", i |-> i, b |-> x, max |-> -1, f |-> f])
  \/ \E i \in Lists, x \in Streams, f \in 0..1 : Do([o |-> "U", i |-> i, b |-> Magic \o <<2, 0, 0, 0>> \o x, f |-> f])
  \/ \E i \in Lists, o \in {"D", "I", "L"} : Do([o |-> o, i |-> i, f |-> 0])
  \/ \E i \in Slots : Do([o |-> "K", i |-> <<i>>, f |-> 0])
Spec == Init /\ [][Next]_vars
\* released means nothing live, whatever came before; what a holder owns is within the bounds the conformance check uses
Released == Empty(s) => \A h \in DOMAIN heap : heap[h] = 0
Bounds == (\A i \in Slots : Within(heap[i], SlotBlocks(s.obj[i]))) /\ (\A i \in Lists : Within(heap[NSlots + i], ListBlocks(s.lst[i])))
NeverForgotten == ~bad
\* a holder can always be released
Releasable == \A i \in Slots : s.obj[i].st # "none" => (Allowed(s, "d", i) \/ Allowed(s, "k", i) \/ Allowed(s, "x", i))
View == <<s, heap, n, bad>>
=============================================================================
