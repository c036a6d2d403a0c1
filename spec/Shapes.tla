------------------------------- MODULE Shapes -------------------------------
(* Accepted protocols that differ in shape, enumerated: every ordered pair   *)
(* of member kinds (in structs and in messages), every pair of size types,   *)
(* every declaration order of a nested chain, degenerate protocols, enum     *)
(* ranges. A protocol is a step; the invariant ties them to the acceptance   *)
(* rules of WellFormed. VB_FROM/VB_N select a range, VB_CHUNK pairs per      *)
(* protocol, VB_PAIRS how many of the pairs (all when large enough).         *)
EXTENDS WellFormed, Json, IOUtils

FROM == atoi(IOEnv.VB_FROM)
N == atoi(IOEnv.VB_N)
CHUNK == atoi(IOEnv.VB_CHUNK)

Sz == <<"byte", "uint16", "int16", "uint32", "int32", "uint64", "int64">>
Nums == <<"byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double">>
\* ---- the vocabulary every pair protocol declares
Enums0 == <<[name |-> "Small", entries |-> <<<<"Sa", 0>>, <<"Sb", 1>>>>], [name |-> "Mid", entries |-> <<<<"Ma", -3>>, <<"Mb", 300>>>>], [name |-> "Wide", entries |-> <<<<"Wa", 70000>>, <<"Wb", -2>>, <<"Wc", 0>>>>]>>
M(nm, ty, l) == <<nm, ty, l>>
Structs0 == <<[name |-> "Flat", members |-> <<M("x", "uint16", FALSE), M("y", "Small", FALSE)>>], [name |-> "FlatDeep", members |-> <<M("f", "Flat", FALSE), M("w", "Wide", FALSE), M("g", "Flat", FALSE)>>],
             [name |-> "Hollow", members |-> <<>>], [name |-> "Text", members |-> <<M("s", "string", FALSE)>>], [name |-> "Rows", members |-> <<M("r", "Text", TRUE), M("n", "int16", TRUE), M("e", "Mid", TRUE)>>],
             [name |-> "Nest", members |-> <<M("a", "Rows", FALSE), M("b", "Flat", TRUE), M("h", "Hollow", FALSE), M("r", "Rows", TRUE)>>]>>
Kinds == Nums \o <<"string", "Small", "Mid", "Wide", "Flat", "FlatDeep", "Hollow", "Text", "Rows", "Nest">>
K == 2 * Len(Kinds)                       \* each kind alone and in a list
KindAt(i) == <<Kinds[1 + (i \div 2)], i % 2 = 1>>
NPairs == K * K
PairAt(p) == <<KindAt(p \div K), KindAt(p % K)>>
Cap == <<"A", "B", "C", "D", "E", "F", "G", "H", "J", "K">>
RECURSIVE Letters(_)
Letters(i) == IF i < 10 THEN Cap[i + 1] ELSE Letters(i \div 10) \o Cap[(i % 10) + 1]
PairMembers(p) == LET q == PairAt(p) IN <<M("one", q[1][1], q[1][2]), M("two", q[2][1], q[2][2])>>
\* c-th pair protocol: half the pairs directly in messages, half in structs a message holds
PairProto(c) ==
  LET ps == [i \in 1..CHUNK |-> (c * CHUNK + i - 1) % NPairs]
      inS == {i \in 1..CHUNK : (ps[i] + c) % 2 = 0}
      ss == SelectSeq([i \in 1..CHUNK |-> IF i \in inS THEN [name |-> "S" \o Letters(i), members |-> PairMembers(ps[i])] ELSE [name |-> "", members |-> <<>>]], LAMBDA s : s.name # "")
      ms == [i \in 1..CHUNK |-> [name |-> "M" \o Letters(i), members |-> IF i \in inS THEN <<M("pre", "byte", FALSE), M("in1", "S" \o Letters(i), FALSE), M("in2", "S" \o Letters(i), TRUE)>> ELSE PairMembers(ps[i])]] IN
  [id |-> "pairs" \o ToString(c), ns |-> "Pairs" \o Letters(c), lst |-> Sz[1 + (c % 7)], str |-> Sz[1 + ((c \div 7) % 7)], enums |-> Enums0, structs |-> Structs0 \o ss, messages |-> ms]
NPairProtos == (NPairs + CHUNK - 1) \div CHUNK

\* ---- size types
SizeProto(c) == [id |-> "sizes" \o ToString(c), ns |-> "Sizes" \o Letters(c), lst |-> Sz[1 + (c % 7)], str |-> Sz[1 + (c \div 7)], enums |-> Enums0, structs |-> Structs0,
  messages |-> <<[name |-> "All", members |-> [i \in 1..K |-> M("m" \o ToString(i), KindAt(i - 1)[1], KindAt(i - 1)[2])]]>>]

\* ---- declaration orders
Perm4 == <<<<1,2,3,4>>,<<1,2,4,3>>,<<1,3,2,4>>,<<1,3,4,2>>,<<1,4,2,3>>,<<1,4,3,2>>,<<2,1,3,4>>,<<2,1,4,3>>,<<2,3,1,4>>,<<2,3,4,1>>,<<2,4,1,3>>,<<2,4,3,1>>,
           <<3,1,2,4>>,<<3,1,4,2>>,<<3,2,1,4>>,<<3,2,4,1>>,<<3,4,1,2>>,<<3,4,2,1>>,<<4,1,2,3>>,<<4,1,3,2>>,<<4,2,1,3>>,<<4,2,3,1>>,<<4,3,1,2>>,<<4,3,2,1>>>>
\* three chains of four structs each: fixed-size, with strings, through lists; all declared in one permutation
ChainOf(p, l, leaf) == [i \in 1..4 |-> [name |-> p \o Letters(i), members |-> <<M("before", "byte", FALSE)>> \o (IF i < 4 THEN <<M("next", p \o Letters(i + 1), l), M("also", p \o Letters(i + 1), FALSE)>> ELSE <<>>) \o <<M("leaf", leaf, FALSE), M("after", "Small", FALSE)>>]]
Permuted(s, p) == [i \in 1..4 |-> s[p[i]]]
OrderProto(c) == LET p == Perm4[c + 1] IN
  [id |-> "order" \o ToString(c), ns |-> "Order" \o Letters(c), lst |-> "uint16", str |-> "byte", enums |-> Enums0, structs |-> Permuted(ChainOf("Fix", FALSE, "int32"), p) \o Permuted(ChainOf("Txt", FALSE, "string"), p) \o Permuted(ChainOf("Lst", TRUE, "double"), p),
   messages |-> <<[name |-> "Use", members |-> <<M("f", "FixB", FALSE), M("fs", "FixB", TRUE), M("t", "TxtB", FALSE), M("ts", "TxtC", TRUE), M("l", "LstB", FALSE), M("ls", "LstB", TRUE)>>]>>]

\* ---- degenerate protocols, with and without a namespace
Degenerate == <<
  [enums |-> <<>>, structs |-> <<>>, messages |-> <<>>],
  [enums |-> <<>>, structs |-> <<>>, messages |-> <<[name |-> "Nil", members |-> <<>>]>>],
  [enums |-> Enums0, structs |-> <<>>, messages |-> <<>>],
  [enums |-> <<>>, structs |-> <<[name |-> "Void", members |-> <<>>]>>, messages |-> <<>>],
  [enums |-> Enums0, structs |-> Structs0, messages |-> <<>>],
  [enums |-> <<>>, structs |-> <<[name |-> "Void", members |-> <<>>], [name |-> "Void2", members |-> <<M("v", "Void", FALSE)>>], [name |-> "Void3", members |-> <<M("v", "Void2", TRUE)>>]>>,
   messages |-> <<[name |-> "Nil", members |-> <<>>], [name |-> "Hold", members |-> <<M("v", "Void", FALSE)>>], [name |-> "Holds", members |-> <<M("v", "Void2", TRUE)>>], [name |-> "Deep", members |-> <<M("v", "Void3", FALSE)>>]>>],
  [enums |-> <<>>, structs |-> <<>>, messages |-> <<[name |-> "Only", members |-> <<M("s", "string", FALSE)>>]>>],
  [enums |-> <<>>, structs |-> <<>>, messages |-> <<[name |-> "OnlyList", members |-> <<M("s", "string", TRUE)>>]>>],
  [enums |-> Enums0, structs |-> <<>>, messages |-> <<[name |-> "OnlyEnum", members |-> <<M("s", "Mid", FALSE)>>]>>],
  [enums |-> Enums0, structs |-> <<>>, messages |-> <<[name |-> "OnlyEnums", members |-> <<M("s", "Wide", TRUE)>>]>>],
  [enums |-> <<>>, structs |-> <<>>, messages |-> <<[name |-> "OnlyNums", members |-> <<M("s", "uint64", FALSE)>>], [name |-> "OnlyFloat", members |-> <<M("s", "float", FALSE)>>]>>],
  [enums |-> <<>>, structs |-> <<[name |-> "Unused", members |-> <<M("s", "string", TRUE)>>], [name |-> "UnusedFlat", members |-> <<M("s", "byte", FALSE)>>]>>, messages |-> <<[name |-> "Plain", members |-> <<M("q", "bool", FALSE)>>]>>],
  [enums |-> <<>>, structs |-> <<>>, messages |-> [i \in 1..255 |-> [name |-> "Msg" \o Letters(i), members |-> IF i % 50 = 0 THEN <<M("s", "string", FALSE)>> ELSE <<>>]]]>>
DegProto(c) == LET d == Degenerate[1 + (c \div 2)] IN
  [id |-> "deg" \o ToString(c), ns |-> IF c % 2 = 0 THEN "Deg" \o Letters(c) ELSE "", lst |-> "uint32", str |-> "uint32", enums |-> d.enums, structs |-> d.structs, messages |-> d.messages]

\* ---- enums: numbers at the borders of the encodings, entry names shared between enums
EnumSets == << <<0>>, <<255>>, <<1, 2, 3>>, <<0, 255>>, <<256>>, <<(0 - 1)>>, <<0, 256>>, <<(0 - 128), 127>>, <<(0 - 32768), 32767>>, <<32767>>, <<32768>>, <<(0 - 32769)>>, <<65535>>, <<2147483647>>, <<(0 - 2147483647 - 1)>>, <<2147483647, (0 - 2147483647 - 1), 0>>, <<5, 3, 1>>, <<200, 100, 0, 50>>, <<(0 - 1), 0, 1>>, <<40000, 2>> >>
EnumProto(c) == LET es == [i \in 1..Len(EnumSets) |-> [name |-> "En" \o Letters(i), entries |-> [j \in 1..Len(EnumSets[i]) |-> <<<<"North", "East", "South", "West">>[1 + ((j + c) % 4)], EnumSets[i][j]>>]]] IN
  [id |-> "enums" \o ToString(c), ns |-> IF c = 0 THEN "EnumShapes" ELSE "", lst |-> "byte", str |-> "byte", enums |-> es,
   structs |-> [i \in 1..Len(es) |-> [name |-> "Box" \o Letters(i), members |-> <<M("e", es[i].name, FALSE)>>]] \o [i \in 1..Len(es) |-> [name |-> "Bag" \o Letters(i), members |-> <<M("e", es[i].name, TRUE), M("f", es[i].name, FALSE)>>]],
   messages |-> <<[name |-> "Every", members |-> [i \in 1..Len(es) |-> M("e" \o ToString(i), es[i].name, FALSE)] \o [i \in 1..Len(es) |-> M("l" \o ToString(i), es[i].name, TRUE)] \o [i \in 1..Len(es) |-> M("b" \o ToString(i), "Box" \o Letters(i), FALSE)] \o [i \in 1..Len(es) |-> M("g" \o ToString(i), "Bag" \o Letters(i), TRUE)]]>>]

NDeg == 2 * Len(Degenerate)
Total == 49 + 24 + NDeg + 2 + NPairProtos
Proto(c) == CASE c < NDeg -> DegProto(c) [] c < NDeg + 2 -> EnumProto(c - NDeg) [] c < NDeg + 26 -> OrderProto(c - NDeg - 2) [] c < NDeg + 75 -> SizeProto(c - NDeg - 26) [] OTHER -> PairProto(c - NDeg - 75)

\* the document of a protocol, for the rules
MD(ms) == [i \in 1..Len(ms) |-> <<ms[i][1], Str(IF ms[i][3] THEN "[" \o ms[i][2] \o "]" ELSE ms[i][2])>>]
DocOf(p) == [text |-> "ok", top |-> <<
  <<"meta", Tab(<<<<"list_size_type", Str(p.lst)>>, <<"string_size_type", Str(p.str)>>>> \o (IF p.ns = "" THEN <<>> ELSE <<<<"namespace", Str(p.ns)>>>>))>>,
  <<"structs", Arr([i \in 1..Len(p.structs) |-> Tab(<<<<"_name", Str(p.structs[i].name)>>>> \o MD(p.structs[i].members))])>>,
  <<"enums", Arr([i \in 1..Len(p.enums) |-> Tab(<<<<"_name", Str(p.enums[i].name)>>, <<"_values", Arr([j \in 1..Len(p.enums[i].entries) |-> Tab(<<<<"_name", Str(p.enums[i].entries[j][1])>>, <<"_value", Num(p.enums[i].entries[j][2])>>>>)])>>>>)])>>,
  <<"messages", Arr([i \in 1..Len(p.messages) |-> Tab(<<<<"_name", Str(p.messages[i].name)>>>> \o MD(p.messages[i].members))])>>>>]

VARIABLES n, pr
Init == n = FROM /\ pr = [id |-> ""]
Next == n < FROM + N /\ n < Total /\ n' = n + 1 /\ pr' = TLCEval(Proto(n))
Emit == n = FROM \/ PrintT("@@" \o ToJson(pr))
AllAccepted == n = FROM \/ Accept(DocOf(pr))
=============================================================================
