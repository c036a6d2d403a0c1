------------------------------- MODULE Values -------------------------------
(* Random message values, boundary-heavy. Everything is forced (TLCEval)     *)
(* where it is drawn: TLC would otherwise draw again at each use. Operators   *)
(* take a dummy argument because TLC evaluates constant definitions once.    *)
EXTENDS Stream

Draw(S) == RandomElement(S)
Chance(n) == RandomElement(1..n) = 1   \* one in n

Limb(z) == IF Chance(2) THEN Draw({0, 1, 127, 128, 255, 256, 4660, 32767, 32768, 65279, 65535}) ELSE Draw(0..65535)
Limbs4(z) == TLCEval(LET k == Draw(1..5) IN
  CASE k = 1 -> Draw({<<0,0,0,0>>, <<1,0,0,0>>, <<255,0,0,0>>, <<256,0,0,0>>, <<65535,65535,0,0>>, <<0,0,1,0>>, <<0,0,32,0>>, <<1,0,32,0>>,
                      <<65535,65535,65535,32767>>, <<0,0,0,32768>>, <<65535,65535,65535,65535>>, <<772,258,1800,1286>>})
    [] OTHER -> <<Limb(0), Limb(0), Limb(0), Limb(0)>>)

Chars == {0, 10, 32, 34, 48, 65, 92, 97, 122, 127, 128, 233, 255, 256, 769, 2047, 2048, 8364, 55295, 57344, 64257, 65279, 65533, 65535, 65536, 128512, 1114111}
AnyChar(z) == LET k == Draw(1..4) IN CASE k = 1 -> Draw(Chars) [] k = 2 -> Draw(97..122) [] k = 3 -> Draw(32..126) [] OTHER -> Draw((161..55295) \cup {128512})
\* n bytes of text, ending in a two-byte character when that fits
TextOf(n) == TLCEval(LET c == Draw(65..90) IN IF n < 2 \/ Chance(2) THEN [i \in 1..n |-> c] ELSE Append([i \in 1..n - 2 |-> c], 233))

RECURSIVE RChars(_)
RChars(n) == IF n = 0 THEN <<>> ELSE LET c == Draw(Chars) d == AnyChar(0) IN (IF Chance(2) THEN <<c>> ELSE <<d>>) \o RChars(n - 1)

\* md: 0 minimal, 1 at least one of everything, 2 random, 3 random with long strings and lists
RString(P, md) ==
  TLCEval(CASE md = 0 -> <<>>
    [] md = 3 /\ Chance(3) -> TextOf(Draw({k \in {127, 128, 200, 255, 256, 257, 300, 1000} : k <= SizeCap(P.str)}))
    [] OTHER -> RChars(Draw(IF md = 1 THEN 1..4 ELSE 0..5)))

RNum(t, md) ==
  IF md = 0 THEN ZeroOf(t) ELSE
  TLCEval(CASE t = "bool"   -> Draw({0, 1})
    [] t = "byte"   -> IF Chance(2) THEN Draw({0, 1, 2, 127, 128, 200, 254, 255}) ELSE Draw(0..255)
    [] t = "uint16" -> Limb(0)
    [] t = "int16"  -> IF Chance(2) THEN Draw({0, 1, -1, 127, 128, -128, -129, 255, 256, -256, 32767, -32768}) ELSE Draw(-32768..32767)
    [] t = "int32"  -> IF Chance(2) THEN Draw({0, 1, -1, 255, 256, -256, 32767, 32768, -32768, 65535, 65536, -65536, 16909060, 2147483647, -2147483647 - 1})
                       ELSE (Limb(0) - 32768) * 65536 + Limb(0)
    [] t = "uint32" -> <<Limb(0), Limb(0)>>
    [] t = "uint64" -> Limbs4(0)
    [] t = "int64"  -> LET l == Limbs4(0) s == Draw({0, 1}) IN
                       IF l = <<0, 0, 0, 32768>> THEN <<1>> \o l
                       ELSE IF l = <<0, 0, 0, 0>> THEN <<0>> \o l ELSE <<s, l[1], l[2], l[3], l[4] % 32768>>
    \* no NaN but the canonical quiet one: languages may change the others when they copy floats
    [] t = "float"  -> LET h == Limb(0) l == Limb(0) IN
                       IF h % 32768 >= 32640 \/ Chance(3) THEN Draw({<<0, 0>>, <<0, 32768>>, <<0, 16256>>, <<0, 49024>>, <<0, 32640>>, <<0, 65408>>, <<0, 32704>>, <<1, 0>>, <<65535, 127>>, <<0, 128>>, <<65535, 32639>>, <<4059, 16457>>})
                       ELSE <<l, h>>
    [] t = "double" -> LET l == Limbs4(0) IN
                       IF l[4] % 32768 >= 32752 \/ Chance(3) THEN Draw({<<0,0,0,0>>, <<0,0,0,32768>>, <<0,0,0,16368>>, <<0,0,0,49136>>, <<0,0,0,32752>>, <<0,0,0,65520>>, <<0,0,0,32760>>, <<1,0,0,0>>, <<65535,65535,65535,32751>>, <<11544,21572,8699,16393>>, <<39322,39321,39321,16313>>})
                       ELSE l)

ListLen(P, t, md, d) ==
  CASE md = 0 -> 0
    [] md = 1 -> Draw(1..2)
    [] md = 3 /\ d = 0 /\ P.kind[t] \in {"num", "enum"} /\ Chance(3) -> Draw({k \in {127, 128, 255, 256, 300} : k <= SizeCap(P.lst)})
    [] d = 0 -> Draw(0..3)
    [] OTHER -> Draw(0..2)

RECURSIVE RMembers(_, _, _, _)
RVal(P, t, md, d) ==
  CASE P.kind[t] = "num"    -> RNum(t, md)
    [] P.kind[t] = "enum"   -> IF md = 0 THEN P.dflt[t] ELSE Draw(P.nums[t])
    [] P.kind[t] = "string" -> RString(P, md)
    [] P.kind[t] = "struct" -> RMembers(P, P.mem[t], md, d + 1)
RECURSIVE RList(_, _, _, _, _)
RList(P, t, md, d, n) == IF n = 0 THEN <<>> ELSE <<TLCEval(RVal(P, t, md, d))>> \o RList(P, t, md, d, n - 1)
RMember(P, mb, md, d) == IF mb.list THEN LET n == ListLen(P, mb.t, md, d) IN RList(P, mb.t, md, d, n) ELSE RVal(P, mb.t, md, d)
RECURSIVE RSeq(_, _, _, _, _)
RSeq(P, ms, md, d, i) == IF i > Len(ms) THEN <<>> ELSE <<TLCEval(RMember(P, ms[i], md, d))>> \o RSeq(P, ms, md, d, i + 1)
RMembers(P, ms, md, d) == RSeq(P, ms, md, d, 1)
RMsg(P, m, md) == TLCEval(RMembers(P, P.msg[m], md, 0))
=============================================================================
