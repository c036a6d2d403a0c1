-------------------------------- MODULE Wire --------------------------------
(* The documented wire format: encoder, size, decoder and defaults.          *)
EXTENDS Protocol

RECURSIVE EncMembers(_, _, _)
EncVal(P, t, v) ==
  CASE P.kind[t] = "num"    -> EncNum(t, v)
    [] P.kind[t] = "enum"   -> EncNum(P.enc[t], v)
    [] P.kind[t] = "string" -> LET u == Utf8(v) IN EncLen(P.str, Len(u)) \o u
    [] P.kind[t] = "struct" -> EncMembers(P, P.mem[t], v)
EncMember(P, mb, v) ==
  IF mb.list THEN EncLen(P.lst, Len(v)) \o Cat([i \in 1..Len(v) |-> EncVal(P, mb.t, v[i])])
  ELSE EncVal(P, mb.t, v)
EncMembers(P, ms, vs) == Cat([i \in 1..Len(ms) |-> EncMember(P, ms[i], vs[i])])
Enc(P, m, v) == EncMembers(P, P.msg[m], v)
EncTagged(P, m, v, tag) == IF tag THEN <<Tag(m)>> \o Enc(P, m, v) ELSE Enc(P, m, v)

Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

\* size by structure, without encoding
RECURSIVE SizeMembers(_, _, _)
SizeVal(P, t, v) ==
  CASE P.kind[t] = "num"    -> NumSize[t]
    [] P.kind[t] = "enum"   -> NumSize[P.enc[t]]
    [] P.kind[t] = "string" -> NumSize[P.str] + Utf8Len(v)
    [] P.kind[t] = "struct" -> SizeMembers(P, P.mem[t], v)
SizeMember(P, mb, v) ==
  IF mb.list THEN NumSize[P.lst] + Sum([i \in 1..Len(v) |-> SizeVal(P, mb.t, v[i])])
  ELSE SizeVal(P, mb.t, v)
SizeMembers(P, ms, vs) == Sum([i \in 1..Len(ms) |-> SizeMember(P, ms[i], vs[i])])
Size(P, m, v) == SizeMembers(P, P.msg[m], v)
PackedSize(P, items) == 9 + Sum([i \in 1..Len(items) |-> 1 + Size(P, items[i].m, items[i].v)])

(* Decoder. p is the number of bytes consumed so far.                        *)
(* Results: [ok |-> TRUE, v, p] or [ok |-> FALSE, e |-> "eof" | "enum"]      *)
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p, e |-> ""]
Fail(e) == [ok |-> FALSE, v |-> <<>>, p |-> -1, e |-> e]
Have(b, p, n) == n <= Len(b) - p

DecNumber(t, b, p) == IF Have(b, p, NumSize[t]) THEN Good(DecNum(t, b, p), p + NumSize[t]) ELSE Fail("eof")
\* a length that is negative, or larger than 2^31, is never followed by that much
DecLength(t, b, p) == IF ~Have(b, p, NumSize[t]) THEN Fail("eof")
                      ELSE LET n == DecLen(t, b, p) IN IF n = -1 THEN Fail("length") ELSE IF n = -2 THEN Fail("huge") ELSE Good(n, p + NumSize[t])

RECURSIVE MinSize(_, _)
MinSize(P, t) == CASE P.kind[t] = "num" -> NumSize[t] [] P.kind[t] = "enum" -> NumSize[P.enc[t]] [] P.kind[t] = "string" -> NumSize[P.str]
                   [] P.kind[t] = "struct" -> Sum([i \in 1..Len(P.mem[t]) |-> IF P.mem[t][i].list THEN NumSize[P.lst] ELSE MinSize(P, P.mem[t][i].t)])

RECURSIVE DecMembers(_, _, _, _)
RECURSIVE DecRun(_, _, _, _, _)
DecVal(P, t, b, p) ==
  CASE P.kind[t] = "num"    -> DecNumber(t, b, p)
    [] P.kind[t] = "enum"   -> LET r == DecNumber(P.enc[t], b, p)
                               IN IF r.ok /\ r.v \notin P.nums[t] THEN Fail("enum") ELSE r
    [] P.kind[t] = "string" -> LET r == DecLength(P.str, b, p)
                               IN IF ~r.ok THEN r
                                  ELSE IF ~Have(b, r.p, r.v) THEN Fail("eof")
                                  ELSE Good(FromUtf8(SubSeq(b, r.p + 1, r.p + r.v)), r.p + r.v)
    [] P.kind[t] = "struct" -> DecMembers(P, P.mem[t], b, p)
\* n values of type t, one after another (in halves: lists can be long)
DecRun(P, t, b, p, n) ==
  IF n = 0 THEN Good(<<>>, p)
  ELSE IF n = 1 THEN LET x == DecVal(P, t, b, p) IN IF x.ok THEN Good(<<x.v>>, x.p) ELSE x
  ELSE LET l == TLCEval(DecRun(P, t, b, p, n \div 2)) IN
       IF ~l.ok THEN l
       ELSE LET r == TLCEval(DecRun(P, t, b, l.p, n - (n \div 2))) IN IF r.ok THEN Good(l.v \o r.v, r.p) ELSE r
DecMember(P, mb, b, p) ==
  IF ~mb.list THEN DecVal(P, mb.t, b, p)
  ELSE LET r == DecLength(P.lst, b, p) IN
       IF ~r.ok THEN IF r.e = "huge" /\ MinSize(P, mb.t) = 0 THEN Fail("uncounted") ELSE r
       \* elements take at least one byte each unless they are structs without members: of those, any number fits, and
       \* what a reader does with more than it can count to is left open
       ELSE IF r.v > 3000 /\ MinSize(P, mb.t) = 0 THEN Fail("uncounted")
       ELSE IF r.v > Len(b) - r.p /\ MinSize(P, mb.t) > 0 THEN Fail("eof")
       ELSE DecRun(P, mb.t, b, r.p, r.v)
DecMembers(P, ms, b, p) ==
  FoldLeft(LAMBDA a, mb : IF ~a.ok THEN a
                          ELSE LET x == DecMember(P, mb, b, a.p)
                               IN IF x.ok THEN Good(Append(a.v, x.v), x.p) ELSE x,
           Good(<<>>, p), ms)
Dec(P, m, b, p) == DecMembers(P, P.msg[m], b, p)

\* documented defaults
ZeroOf(t) == CASE t \in {"uint32", "float"} -> <<0, 0>> [] t \in {"uint64", "double"} -> <<0, 0, 0, 0>>
               [] t = "int64" -> <<0, 0, 0, 0, 0>> [] OTHER -> 0
RECURSIVE DefMembers(_, _)
DefMember(P, mb) ==
  IF mb.list THEN <<>>
  ELSE CASE P.kind[mb.t] = "num" -> ZeroOf(mb.t) [] P.kind[mb.t] = "enum" -> P.dflt[mb.t]
         [] P.kind[mb.t] = "string" -> <<>> [] P.kind[mb.t] = "struct" -> DefMembers(P, P.mem[mb.t])
DefMembers(P, ms) == [i \in 1..Len(ms) |-> DefMember(P, ms[i])]
Default(P, m) == DefMembers(P, P.msg[m])

(* Where enum numbers sit in the encoding of a value:                        *)
(* sequence of [p |-> offset, t |-> enum name]                               *)
RECURSIVE SitesMembers(_, _, _, _)
SitesVal(P, t, v, p) ==
  CASE P.kind[t] = "enum"   -> <<[p |-> p, t |-> t]>>
    [] P.kind[t] = "struct" -> SitesMembers(P, P.mem[t], v, p)
    [] OTHER                -> <<>>
SitesMember(P, mb, v, p) ==
  IF ~mb.list THEN SitesVal(P, mb.t, v, p)
  ELSE IF P.kind[mb.t] \notin {"enum", "struct"} THEN <<>>
  ELSE FoldLeft(LAMBDA a, x : [s |-> a.s \o SitesVal(P, mb.t, x, a.p), p |-> a.p + SizeVal(P, mb.t, x)],
                [s |-> <<>>, p |-> p + NumSize[P.lst]], v).s
SitesMembers(P, ms, vs, p) ==
  FoldLeft(LAMBDA a, i : [s |-> a.s \o SitesMember(P, ms[i], vs[i], a.p), p |-> a.p + SizeMember(P, ms[i], vs[i])],
           [s |-> <<>>, p |-> p], [i \in 1..Len(ms) |-> i]).s
EnumSites(P, m, v) == SitesMembers(P, P.msg[m], v, 0)

(* Where lengths sit in the encoding of a value: sequence of [p |-> offset,  *)
(* t |-> size type, n |-> length, f |-> whether elements take space]         *)
RECURSIVE LensMembers(_, _, _, _)
LensVal(P, t, v, p) ==
  CASE P.kind[t] = "string" -> <<[p |-> p, t |-> P.str, n |-> Utf8Len(v), f |-> TRUE]>>
    [] P.kind[t] = "struct" -> LensMembers(P, P.mem[t], v, p)
    [] OTHER                -> <<>>
LensMember(P, mb, v, p) ==
  IF ~mb.list THEN LensVal(P, mb.t, v, p)
  ELSE FoldLeft(LAMBDA a, x : [s |-> a.s \o LensVal(P, mb.t, x, a.p), p |-> a.p + SizeVal(P, mb.t, x)],
                [s |-> <<[p |-> p, t |-> P.lst, n |-> Len(v), f |-> MinSize(P, mb.t) > 0]>>, p |-> p + NumSize[P.lst]], v).s
LensMembers(P, ms, vs, p) ==
  FoldLeft(LAMBDA a, i : [s |-> a.s \o LensMember(P, ms[i], vs[i], a.p), p |-> a.p + SizeMember(P, ms[i], vs[i])],
           [s |-> <<>>, p |-> p], [i \in 1..Len(ms) |-> i]).s
LenSites(P, m, v) == LensMembers(P, P.msg[m], v, 0)

(* A value read from arbitrary bytes is compared up to the text that is no   *)
(* UTF-8 (each language replaces or keeps it in its own way) and up to NaNs. *)
IsNaN(t, v) == CASE t = "float" -> v[2] % 32768 > 32640 \/ (v[2] % 32768 = 32640 /\ v[1] # 0)
                 [] t = "double" -> v[4] % 32768 > 32752 \/ (v[4] % 32768 = 32752 /\ (v[1] # 0 \/ v[2] # 0 \/ v[3] # 0)) [] OTHER -> FALSE
RECURSIVE LikeMembers(_, _, _, _)
LikeVal(P, t, x, y) == x = y \/ CASE P.kind[t] = "struct" -> LikeMembers(P, P.mem[t], x, y)
                                   [] P.kind[t] = "string" -> x # <<>> /\ x[1] = -1
                                   [] t \in {"float", "double"} -> IsNaN(t, x) /\ IsNaN(t, y) [] OTHER -> FALSE
LikeMember(P, mb, x, y) == x = y \/ IF mb.list THEN Len(x) = Len(y) /\ \A i \in 1..Len(x) : LikeVal(P, mb.t, x[i], y[i]) ELSE LikeVal(P, mb.t, x, y)
LikeMembers(P, ms, xs, ys) == \A i \in 1..Len(ms) : LikeMember(P, ms[i], xs[i], ys[i])
Like(P, m, x, y) == LikeMembers(P, P.msg[m], x, y)
RECURSIVE OddText(_, _, _)
OddVal(P, t, x) == CASE P.kind[t] = "struct" -> OddText(P, P.mem[t], x) [] P.kind[t] = "string" -> x # <<>> /\ x[1] = -1 [] OTHER -> FALSE
OddText(P, ms, xs) == \E i \in 1..Len(ms) : IF ms[i].list THEN \E j \in 1..Len(xs[i]) : OddVal(P, ms[i].t, xs[i][j]) ELSE OddVal(P, ms[i].t, xs[i])

(* AssemblyScript has enums that hold any number: its readers take every     *)
(* number of the encoding, and give an undeclared one as a value that no     *)
(* entry has. Lax is the protocol such a reader decodes by, LaxLike its      *)
(* notion of the value it should have read.                                  *)
Lax(P) == [P EXCEPT !.nums = [t \in DOMAIN P.nums |-> Int]]
RECURSIVE LaxMembers(_, _, _, _)
LaxVal(P, t, x, y) == CASE P.kind[t] = "enum" -> IF x \in P.nums[t] THEN x = y ELSE y \notin P.nums[t]
                        [] P.kind[t] = "struct" -> LaxMembers(P, P.mem[t], x, y) [] OTHER -> LikeVal(P, t, x, y)
LaxMember(P, mb, x, y) == IF mb.list THEN Len(x) = Len(y) /\ \A i \in 1..Len(x) : LaxVal(P, mb.t, x[i], y[i]) ELSE LaxVal(P, mb.t, x, y)
LaxMembers(P, ms, xs, ys) == \A i \in 1..Len(ms) : LaxMember(P, ms[i], xs[i], ys[i])
LaxLike(P, m, x, y) == LaxMembers(P, P.msg[m], x, y)
=============================================================================
