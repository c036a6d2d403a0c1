------------------------------ MODULE Lifecycle -----------------------------
(* Ownership of memory in generated C. An application holds message objects  *)
(* in slots and message lists; every public call is one step. The state says *)
(* what each holder contains and which calls the ownership rules allow next. *)
(*   slot: st "none"   nothing                                               *)
(*            "fresh"  a default message; owns nothing but itself            *)
(*            "full"   a message with content v                              *)
(*            "failed" a read into it failed: it may only be released        *)
(*            "spent"  cleaned up: it may be read into again, or dropped     *)
(*            "maybe"  a creation whose allocation may have failed           *)
(*         heap: allocated by the library's allocator, else on the stack     *)
(*   list: st "none" | "full" with items | "failed"                          *)
EXTENDS Stream
CONSTANTS NSlots, NLists
Slots == 1..NSlots
Lists == 1..NLists
NoSlot == [st |-> "none", m |-> 0, v |-> <<>>, heap |-> FALSE]
NoList == [st |-> "none", items |-> <<>>]
Start == [obj |-> [i \in Slots |-> NoSlot], lst |-> [i \in Lists |-> NoList]]

\* what the rules allow; o is the call, i the slot or list
Allowed(s, o, i) ==
  CASE o \in {"c", "s", "b"} -> s.obj[i].st = "none"
    [] o = "r" -> s.obj[i].st \in {"fresh", "spent"}
    [] o \in {"w", "g"} -> s.obj[i].st \in {"fresh", "full"}
    [] o = "k" -> s.obj[i].st \in {"fresh", "full", "failed"}
    [] o = "d" -> s.obj[i].heap /\ s.obj[i].st \in {"fresh", "full", "failed", "maybe"}
    [] o = "x" -> s.obj[i].st = "spent" \/ (s.obj[i].st = "fresh" /\ ~s.obj[i].heap)
    [] o \in {"P", "U"} -> s.lst[i].st = "none"
    [] o \in {"D", "I"} -> s.lst[i].st \in {"full", "failed"}
    [] o = "L" -> s.lst[i].st = "full"
    [] o = "K" -> \A j \in ToSet(i) : s.obj[j].st \in {"fresh", "full"}

\* the result a call must have: [ok, ...]
Result(P, s, c) ==
  CASE c.o \in {"c", "s"} -> [ok |-> TRUE, m |-> c.m, v |-> Default(P, c.m)]
    [] c.o = "b" -> [ok |-> TRUE, m |-> c.m, v |-> c.v]
    [] c.o = "r" -> LET x == Dec(P, s.obj[c.i].m, c.b, 0) IN [ok |-> x.ok, m |-> s.obj[c.i].m, v |-> x.v]
    [] c.o = "w" -> [ok |-> TRUE, b |-> EncTagged(P, s.obj[c.i].m, s.obj[c.i].v, c.tag = 1)]
    [] c.o = "g" -> [ok |-> TRUE, n |-> Size(P, s.obj[c.i].m, s.obj[c.i].v)]
    [] c.o = "P" -> LET x == Process(P, c.b, 0, c.max) IN [ok |-> x.st = "ok", items |-> x.out]
    [] c.o = "U" -> LET x == Unpack(P, c.b, 0) IN [ok |-> x.st = "ok", items |-> IF x.st = "ok" THEN x.out ELSE <<>>]
    [] c.o = "L" -> [ok |-> TRUE, b |-> Pack(P, s.lst[c.i].items)]
    [] c.o = "K" -> [ok |-> TRUE, b |-> Pack(P, [j \in 1..Len(c.i) |-> [m |-> s.obj[c.i[j]].m, v |-> s.obj[c.i[j]].v]])]
    [] OTHER -> [ok |-> TRUE]

\* the state after a call; c.f > 0: the c.f-th allocation of the call fails, if there is one
After(P, s, c) ==
  LET r == Result(P, s, c) IN
  CASE c.o = "c" -> [s EXCEPT !.obj[c.i] = [st |-> IF c.f > 0 THEN "maybe" ELSE "fresh", m |-> c.m, v |-> r.v, heap |-> TRUE]]
    [] c.o = "s" -> [s EXCEPT !.obj[c.i] = [st |-> "fresh", m |-> c.m, v |-> r.v, heap |-> FALSE]]
    [] c.o = "b" -> [s EXCEPT !.obj[c.i] = [st |-> "full", m |-> c.m, v |-> c.v, heap |-> TRUE]]
    [] c.o = "r" -> [s EXCEPT !.obj[c.i].st = IF r.ok /\ c.f = 0 THEN "full" ELSE "failed", !.obj[c.i].v = r.v]
    [] c.o = "k" -> [s EXCEPT !.obj[c.i].st = "spent", !.obj[c.i].v = <<>>]
    [] c.o \in {"d", "x"} -> [s EXCEPT !.obj[c.i] = NoSlot]
    [] c.o \in {"P", "U"} -> [s EXCEPT !.lst[c.i] = [st |-> IF r.ok /\ c.f = 0 THEN "full" ELSE "failed", items |-> IF r.ok THEN r.items ELSE <<>>]]
    [] c.o \in {"D", "I"} -> [s EXCEPT !.lst[c.i] = NoList]
    [] OTHER -> s

\* memory: the number of live blocks each holder may own in a state; <<lo, hi>>, hi -1 for any number
SlotBlocks(x) ==
  CASE x.st = "none" -> <<0, 0>>
    [] x.st \in {"fresh", "spent"} -> IF x.heap THEN <<1, 1>> ELSE <<0, 0>>
    [] x.st = "maybe" -> <<0, 1>>
    [] OTHER -> <<IF x.heap THEN 1 ELSE 0, -1>>
ListBlocks(x) == IF x.st = "none" THEN <<0, 0>> ELSE <<0, -1>>
Within(n, b) == n >= b[1] /\ (b[2] < 0 \/ n <= b[2])
\* the holder a call works on: slots are numbered 1..NSlots, lists after them
Holder(c) == IF c.o \in {"P", "U", "D", "I", "L"} THEN NSlots + c.i ELSE IF c.o = "K" THEN 0 ELSE c.i
Empty(s) == (\A i \in Slots : s.obj[i].st = "none") /\ (\A i \in Lists : s.lst[i].st = "none")
=============================================================================
