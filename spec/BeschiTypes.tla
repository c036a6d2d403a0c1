---------------------------- MODULE BeschiTypes ----------------------------
(* Base types of the Beschi protocol language and their byte encodings.     *)
(* TLC integers have 32 bits, so wider numbers are little-endian sequences   *)
(* of 16-bit limbs: uint32 and float (bit pattern) <<lo, hi>>; uint64 and    *)
(* double <<l0, l1, l2, l3>>; int64 <<sign, l0, l1, l2, l3>> with sign 0/1   *)
(* and the magnitude. byte, bool, uint16, int16 and int32 are integers.      *)
(* Strings are sequences of Unicode code points, bytes are 0..255.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

NumSize == [byte |-> 1, bool |-> 1, uint16 |-> 2, int16 |-> 2, uint32 |-> 4,
            int32 |-> 4, uint64 |-> 8, int64 |-> 8, float |-> 4, double |-> 8]
NumTypes == DOMAIN NumSize
BaseTypes == NumTypes \cup {"string"}
SizeTypes == {"byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"}

\* concatenation of f[lo], ..., f[hi], in balanced order (long strings and lists)
RECURSIVE CatRange(_, _, _)
CatRange(f, lo, hi) == IF hi < lo THEN <<>> ELSE IF lo = hi THEN f[lo]
                       ELSE LET mid == (lo + hi) \div 2 IN CatRange(f, lo, mid) \o CatRange(f, mid + 1, hi)
Cat(f) == CatRange(f, 1, Len(f))

LE16(n) == <<n % 256, n \div 256>>
LimbBytes(ls) == Cat([i \in 1..Len(ls) |-> LE16(ls[i])])

Int32Limbs(n) == LET lo == n % 65536
                     hi == (n - lo) \div 65536
                 IN <<lo, IF hi < 0 THEN hi + 65536 ELSE hi>>

\* two's complement of a 4-limb magnitude
NegLimbs(m) ==
  FoldLeft(LAMBDA acc, x : LET y == (65535 - x) + acc.c
                           IN [c |-> y \div 65536, r |-> Append(acc.r, y % 65536)],
           [c |-> 1, r |-> <<>>], m).r

EncNum(t, v) ==
  CASE t \in {"byte", "bool"}     -> <<v>>
    [] t = "uint16"               -> LE16(v)
    [] t = "int16"                -> LE16(IF v < 0 THEN v + 65536 ELSE v)
    [] t = "int32"                -> LimbBytes(Int32Limbs(v))
    [] t \in {"uint32", "float", "uint64", "double"} -> LimbBytes(v)
    [] t = "int64"                -> LimbBytes(IF v[1] = 1 THEN NegLimbs(Tail(v)) ELSE Tail(v))

LimbAt(b, p, i) == b[p + 2*i + 1] + 256 * b[p + 2*i + 2]   \* i-th limb at byte offset p
LimbsAt(b, p, n) == [i \in 1..n |-> LimbAt(b, p, i - 1)]

\* number of type t at offset p (the bytes are there)
DecNum(t, b, p) ==
  CASE t = "byte"   -> b[p + 1]
    [] t = "bool"   -> IF b[p + 1] = 0 THEN 0 ELSE 1
    [] t = "uint16" -> LimbAt(b, p, 0)
    [] t = "int16"  -> LET n == LimbAt(b, p, 0) IN IF n >= 32768 THEN n - 65536 ELSE n
    [] t = "int32"  -> LET lo == LimbAt(b, p, 0) hi == LimbAt(b, p, 1)
                       IN (IF hi >= 32768 THEN hi - 65536 ELSE hi) * 65536 + lo
    [] t \in {"uint32", "float"}  -> LimbsAt(b, p, 2)
    [] t \in {"uint64", "double"} -> LimbsAt(b, p, 4)
    [] t = "int64"  -> LET l == LimbsAt(b, p, 4)
                       IN IF l[4] >= 32768 THEN <<1>> \o NegLimbs(l) ELSE <<0>> \o l

\* lengths: non-negative integers below 2^31 in a size type
SizeCap(t) == CASE t = "byte" -> 255 [] t = "uint16" -> 65535 [] t = "int16" -> 32767 [] OTHER -> 2147483647
EncLen(t, n) == LET four == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
                IN IF NumSize[t] <= 4 THEN SubSeq(four, 1, NumSize[t]) ELSE four \o <<0, 0, 0, 0>>
\* -1: negative, -2: beyond 2^31
DecLen(t, b, p) ==
  LET k == NumSize[t] IN
  CASE k = 1 -> b[p + 1]
    [] k = 2 -> LET n == LimbAt(b, p, 0) IN IF t = "int16" /\ n >= 32768 THEN -1 ELSE n
    [] OTHER -> IF t \in {"int32", "int64"} /\ b[p + k] >= 128 THEN -1
                ELSE IF (k = 8 /\ \E i \in 5..8 : b[p + i] # 0) \/ b[p + 4] >= 128 THEN -2
                ELSE LimbAt(b, p, 0) + 65536 * LimbAt(b, p, 1)

\* UTF-8
Utf8Of(c) ==
  CASE c < 128   -> <<c>>
    [] c < 2048  -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER     -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* a string that was decoded from bytes that are no UTF-8 stands for those bytes: <<-1>> \o bytes
Utf8(s) == IF s # <<>> /\ s[1] = -1 THEN Tail(s) ELSE IF \A i \in 1..Len(s) : s[i] < 128 THEN s ELSE Cat([i \in 1..Len(s) |-> Utf8Of(s[i])])
Utf8Len(s) == IF s # <<>> /\ s[1] = -1 THEN Len(s) - 1 ELSE FoldLeft(LAMBDA a, c : a + (CASE c < 128 -> 1 [] c < 2048 -> 2 [] c < 65536 -> 3 [] OTHER -> 4), 0, s)

\* inverse of Utf8 on its range; <<-1>> \o bytes for anything else
Utf8Chunk(b) ==
  LET step(a, x) ==
        IF a.bad THEN a
        ELSE IF a.need = 0 THEN
               CASE x < 128 -> [a EXCEPT !.out = Append(@, x)]
                 [] x \in 194..223 -> [a EXCEPT !.need = 1, !.c = x - 192, !.lo = 128]
                 [] x \in 224..239 -> [a EXCEPT !.need = 2, !.c = x - 224, !.lo = 2048]
                 [] x \in 240..244 -> [a EXCEPT !.need = 3, !.c = x - 240, !.lo = 65536]
                 [] OTHER -> [a EXCEPT !.bad = TRUE]
        ELSE IF x \notin 128..191 THEN [a EXCEPT !.bad = TRUE]
        ELSE LET c == a.c * 64 + (x - 128) IN
             IF a.need > 1 THEN [a EXCEPT !.need = @ - 1, !.c = c]
             ELSE IF c < a.lo \/ c > 1114111 \/ c \in 55296..57343 THEN [a EXCEPT !.bad = TRUE]
             ELSE [a EXCEPT !.need = 0, !.out = Append(@, c), !.c = 0]
      r == FoldLeft(step, [bad |-> FALSE, need |-> 0, c |-> 0, lo |-> 0, out |-> <<>>], b)
  IN IF r.bad \/ r.need > 0 THEN <<-1>> ELSE r.out
\* long text is decoded in halves that begin with a byte that is not a continuation byte
Boundary(b, p) == IF p > Len(b) \/ b[p] \notin 128..191 THEN p ELSE IF p + 1 > Len(b) \/ b[p + 1] \notin 128..191 THEN p + 1
                  ELSE IF p + 2 > Len(b) \/ b[p + 2] \notin 128..191 THEN p + 2 ELSE p + 3
RECURSIVE Utf8Halves(_)
Utf8Halves(b) ==
  IF Len(b) < 128 THEN Utf8Chunk(b)
  ELSE LET m == Boundary(b, Len(b) \div 2)
           l == TLCEval(Utf8Halves(SubSeq(b, 1, m - 1))) r == TLCEval(Utf8Halves(SubSeq(b, m, Len(b)))) IN
       IF l = <<-1>> \/ r = <<-1>> THEN <<-1>> ELSE l \o r
FromUtf8(b) ==
  IF \A i \in 1..Len(b) : b[i] < 128 THEN b
  ELSE LET r == TLCEval(Utf8Halves(b)) IN IF r = <<-1>> THEN <<-1>> \o b ELSE r
=============================================================================
