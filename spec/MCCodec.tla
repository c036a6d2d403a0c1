------------------------------- MODULE MCCodec ------------------------------
(* Exhaustive model of the codec: every message value over small domains of  *)
(* a few protocols, every truncation and every single-byte corruption of its *)
(* encoding, and every pair of messages packed or streamed together.         *)
EXTENDS Session

CONSTANT Deep   \* TRUE: larger domains

M(n, t) == <<n, t, FALSE>>
L(n, t) == <<n, t, TRUE>>
D(n, ms) == [name |-> n, members |-> ms]
E(n, es) == [name |-> n, entries |-> es]
Protos == <<
  [lst |-> "byte", str |-> "byte", enums |-> <<>>, structs |-> <<>>,
   messages |-> <<D("A", <<M("b", "byte"), M("t", "bool"), M("i", "int16")>>), D("B", <<L("s", "string"), M("u", "uint16")>>), D("C", <<>>)>>],
  [lst |-> "uint16", str |-> "byte", enums |-> <<E("E", <<<<"p", 3>>, <<"q", 1>>>>), E("F", <<<<"r", -1>>, <<"s", 2>>>>)>>,
   structs |-> <<D("S", <<M("e", "E"), L("l", "byte")>>), D("T", <<M("s", "S"), M("f", "F")>>)>>,
   messages |-> <<D("A", <<M("t", "T"), L("ts", "S")>>), D("B", <<L("fs", "F"), M("e", "E")>>)>>],
  [lst |-> "byte", str |-> "uint64", enums |-> <<E("W", <<<<"x", 70000>>, <<"y", -70000>>>>)>>, structs |-> <<D("N", <<>>), D("P", <<M("n", "N"), M("w", "W")>>)>>,
   messages |-> <<D("A", <<L("ns", "N"), M("p", "P")>>), D("B", <<M("i", "int64"), M("f", "float")>>), D("C", <<M("s", "string"), M("u", "uint32")>>)>>],
  [lst |-> "int32", str |-> "uint16", enums |-> <<>>, structs |-> <<>>, messages |-> <<D("A", <<L("u", "uint32"), L("t", "bool")>>)>>],
  [lst |-> "int64", str |-> "int16", enums |-> <<>>, structs |-> <<D("Z", <<M("d", "double"), L("q", "bool")>>)>>,
   messages |-> <<D("A", <<M("z", "Z")>>), D("B", <<L("z", "Z"), M("v", "int32")>>)>>] >>
PS == TLCEval([i \in 1..Len(Protos) |-> Norm(Protos[i])])

Dom(t) ==
  CASE t = "byte" -> IF Deep THEN {0, 1, 128, 255} ELSE {0, 255} [] t = "bool" -> {0, 1}
    [] t = "uint16" -> {1, 65535} [] t = "int16" -> IF Deep THEN {0, -1, 256, -32768, 32767} ELSE {-1, 256} [] t = "int32" -> {-65536, 2147483647}
    [] t = "uint32" -> {<<1, 65535>>} [] t = "float" -> {<<0, 16256>>, <<0, 32768>>}
    [] t = "uint64" -> {<<1, 2, 3, 65535>>} [] t = "double" -> {<<0, 0, 0, 16368>>} [] t = "int64" -> {<<0, 0, 0, 1, 0>>, <<1, 1, 0, 0, 0>>, <<1, 0, 0, 0, 32768>>}
Strings == IF Deep THEN {<<>>, <<97>>, <<233, 97>>, <<8364>>, <<128512>>} ELSE {<<>>, <<97>>, <<8364>>}

RECURSIVE DomMembers(_, _)
DomVal(P, t) == CASE P.kind[t] = "num" -> Dom(t) [] P.kind[t] = "enum" -> P.nums[t] [] P.kind[t] = "string" -> Strings [] P.kind[t] = "struct" -> DomMembers(P, P.mem[t])
DomMember(P, mb) == IF mb.list THEN LET S == DomVal(P, mb.t) IN {<<>>} \cup {<<x>> : x \in S} \cup (IF Deep /\ Cardinality(S) <= 6 THEN {<<x, y>> : x \in S, y \in S} ELSE {<<x, CHOOSE y \in S : TRUE>> : x \in S}) ELSE DomVal(P, mb.t)
RECURSIVE Prod(_, _, _)
Prod(P, ms, i) == IF i > Len(ms) THEN {<<>>} ELSE {<<x>> \o y : x \in DomMember(P, ms[i]), y \in Prod(P, ms, i + 1)}
DomMembers(P, ms) == Prod(P, ms, 1)

VARIABLES p, m, v, b, what
vars == <<p, m, v, b, what>>
\* one message as encoded; then truncated or with one byte changed
Init == \E i \in 1..Len(PS) : \E j \in 1..Len(PS[i].msg) : \E x \in DomMembers(PS[i], PS[i].msg[j]) :
          p = i /\ m = j /\ v = x /\ b = Enc(PS[i], j, x) /\ what = "whole"
Truncate == what = "whole" /\ what' = "cut" /\ \E n \in 0..Len(b) - 1 : b' = SubSeq(b, 1, n) /\ UNCHANGED <<p, m, v>>
Corrupt == what = "whole" /\ what' = "corrupt" /\ \E n \in 1..Len(b), x \in (IF Deep THEN {0, 1, 2, 3, 127, 128, 254, 255} ELSE {0, 1, 128, 255}) : b[n] # x /\ b' = [b EXCEPT ![n] = x] /\ UNCHANGED <<p, m, v>>
Extend == what = "whole" /\ what' = "extended" /\ \E x \in {0, 1, 255} : b' = b \o <<x, x>> /\ UNCHANGED <<p, m, v>>
Next == Truncate \/ Corrupt \/ Extend
Spec == Init /\ [][Next]_vars

P == PS[p]
R == Dec(P, m, b, 0)
RoundTrip == what = "whole" => R.ok /\ R.v = v /\ R.p = Len(b)
SizeExact == what = "whole" => Size(P, m, v) = Len(b)
TruncationRejected == what = "cut" => ~R.ok
TrailingIgnored == what = "extended" => R.ok /\ R.v = v /\ R.p = Len(b) - 2
\* whatever is accepted holds declared enum numbers only, and was encoded canonically
RECURSIVE Declared(_, _)
DeclaredVal(t, x) == CASE P.kind[t] = "enum" -> x \in P.nums[t] [] P.kind[t] = "struct" -> Declared(P.mem[t], x) [] OTHER -> TRUE
Declared(ms, x) == \A i \in 1..Len(ms) : IF ms[i].list THEN \A j \in 1..Len(x[i]) : DeclaredVal(ms[i].t, x[i][j]) ELSE DeclaredVal(ms[i].t, x[i])
EnumsDeclared == R.ok => Declared(P.msg[m], R.v)
RECURSIVE Textual(_, _)   \* no string of ill-formed UTF-8
TextualVal(t, x) == CASE P.kind[t] = "string" -> x = <<>> \/ x[1] # -1 [] P.kind[t] = "struct" -> Textual(P.mem[t], x) [] OTHER -> TRUE
Textual(ms, x) == \A i \in 1..Len(ms) : IF ms[i].list THEN \A j \in 1..Len(x[i]) : TextualVal(ms[i].t, x[i][j]) ELSE TextualVal(ms[i].t, x[i])
Canonical == what = "corrupt" /\ R.ok /\ Textual(P.msg[m], R.v) => LET e == Enc(P, m, R.v) IN Len(e) = R.p /\ \A i \in 1..R.p : e[i] = b[i] \/ e[i] = 1  \* 1: any other nonzero byte is also true
\* two messages in a stream or container with this one: whatever this one's bytes are, the first message is unaffected
Streamed == what = "whole" =>
  \A j \in 1..Len(P.msg) :
    LET d == Default(P, j) its == <<[m |-> j, v |-> d], [m |-> m, v |-> v], [m |-> j, v |-> d]>>
        s == Cat([i \in 1..3 |-> EncTagged(P, its[i].m, its[i].v, TRUE)])  pk == Pack(P, its) u == Unpack(P, pk, 0) IN
    /\ Process(P, s, 0, -1).out = its /\ Process(P, s, 0, 2).out = SubSeq(its, 1, 2) /\ Process(P, s, 0, 0).out = <<>>
    /\ Process(P, s \o <<0>> \o s, 0, -1).out = its
    /\ u.st = "ok" /\ u.out = its /\ Len(pk) = PackedSize(P, its)
    /\ Unpack(P, SubSeq(pk, 1, Len(pk) - 2), 0).st = "err"
    /\ Process(P, SubSeq(s, 1, Len(s)) \o <<Len(P.msg) + 1>>, 0, -1).st = "err"
=============================================================================
