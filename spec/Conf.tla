-------------------------------- MODULE Conf --------------------------------
(* Conformance: each line of the trace is one public operation of generated  *)
(* code with its inputs and the outcomes observed (identical outcomes of     *)
(* several languages are grouped). The trace machine consumes one line per   *)
(* step and records the names of the clauses an outcome violates; the        *)
(* verdict is total. The expected outcome is computed from the same          *)
(* operators that the model-checked specifications use.                      *)
EXTENDS Session, Json, IOUtils
LC == INSTANCE Lifecycle WITH NSlots <- 3, NLists <- 2

Raw == JsonDeserialize(IOEnv.VB_PROTOS)
PS == TLCEval([i \in 1..Len(Raw) |-> Norm(Raw[i])])
T == ndJsonDeserialize(IOEnv.VB_TRACE)

If(c, name) == IF c THEN <<>> ELSE <<name>>
Ended(r) == r.st \in {"ok", "err"}   \* anything else: crash, hang, panic, malformed output

\* memory accounting, where the language's harness reports it: l live blocks, x bad frees
Memory(r) == If(r.l <= 0, "leak") \o If(r.x <= 0, "badfree")

\* ---- write
WriteV(c, r) ==
  LET P == PS[c.s] e == EncTagged(P, c.m, c.v, c.tag = 1) IN
  IF c.sl < 0 THEN
    If(r.st # "ok", "overfull") \o If(r.st \in {"err", "panic"}, "crash") \o (IF r.st = "err" THEN If(r.intact, "outside") ELSE <<>>)
  ELSE IF ~Ended(r) THEN <<"crash">>
  ELSE IF r.st = "err" THEN <<"writefailed">>
  ELSE If(r.b = e, "bytes") \o If(r.intact, "outside") \o If(r.end = c.off + Len(r.b), "end")
       \o If(c.tag = 0 \/ (Len(r.b) > 0 /\ r.b[1] = Tag(c.m)), "tagbyte")
       \o If(r.sz = Len(r.b) - c.tag, "size") \o If(r.sz2 = Len(r.b) - c.tag, "size2") \o Memory(r)

\* ---- read one message
ReadOf(P, m, b, off, r) ==
  LET x == Dec(P, m, b, 0) IN
  IF ~Ended(r) THEN <<"crash">>
  ELSE IF x.ok THEN
    IF r.st = "err" THEN <<"rejected">>
    ELSE If(r.mt = m, "type") \o If(r.mt # m \/ r.v = x.v, "value") \o If(r.pos = -1 \/ r.pos = off + x.p, "consumed") \o Memory(r)
  ELSE IF r.st = "ok" THEN <<IF x.e = "enum" THEN "acceptedenum" ELSE "accepted">> ELSE If(~r.wild, "uncontrolled") \o Memory(r)
ReadV(c, r) == ReadOf(PS[c.s], c.m, c.b, c.off, r)
CutV(c, r) ==
  Cat([i \in 1..Len(r.at) |-> ReadOf(PS[c.s], c.m, SubSeq(c.b, 1, r.at[i]), c.off, r)])

\* reading what was written: no reference to the encoding, only to the value that was written
BackV(c, r) ==
  IF ~Ended(r) THEN <<"crash">> ELSE IF r.st = "err" THEN <<"rejected">>
  ELSE If(r.mt = c.m, "type") \o If(r.mt # c.m \/ r.v = c.v, "value") \o If(r.pos = -1 \/ r.pos = c.off + Len(c.b), "consumed")
BackTaggedV(c, r) ==
  IF ~Ended(r) THEN <<"crash">> ELSE IF r.st = "err" THEN <<"rejected">>
  ELSE IF Len(r.items) # 1 THEN <<"count">>
  ELSE If(r.items[1].m = c.m, "type") \o If(r.items[1].m # c.m \/ r.items[1].v = c.v, "value") \o If(r.pos = -1 \/ c.max < 1 \/ r.pos = c.off + Len(c.b), "consumed")
\* ---- streams and containers
Plain(out) == [i \in 1..Len(out) |-> [m |-> out[i].m, v |-> out[i].v]]
\* whole: a failing call must not hand out the messages it read before it failed
ListV(x, r, pos, whole) ==
  IF ~Ended(r) THEN <<"crash">>
  ELSE IF x.st = "err" THEN (IF r.st = "ok" THEN <<"accepted">> ELSE If(~r.wild, "uncontrolled") \o If(r.items = <<>> \/ ~whole, "partial") \o Memory(r))
  ELSE IF r.st = "err" THEN <<"rejected">>
  ELSE If(Len(r.items) = Len(x.out), "count")
       \o If(\A i \in 1..Len(r.items) : i > Len(x.out) \/ r.items[i].m = x.out[i].m, "types")
       \o If(\A i \in 1..Len(r.items) : i > Len(x.out) \/ r.items[i].m # x.out[i].m \/ r.items[i].v = x.out[i].v, "values")
       \o If(r.pos = -1 \/ pos = -1 \/ r.pos = pos, "consumed") \o Memory(r)
StreamV(c, r) ==
  LET x == Process(PS[c.s], c.b, 0, c.max) IN
  \* the position is only promised after a positive limit was reached
  ListV(x, r, IF x.st = "ok" /\ c.max > 0 /\ Len(x.out) = c.max THEN c.off + x.pos ELSE -1, FALSE)
UnpackV(c, r) == LET x == Unpack(PS[c.s], c.b, 0) IN ListV(x, r, -1, TRUE)
PackV(c, r) ==
  LET e == Pack(PS[c.s], c.items) IN
  IF c.sl < 0 THEN
    If(r.st # "ok", "overfull") \o If(r.st \in {"err", "panic"}, "crash") \o (IF r.st = "err" THEN If(r.intact, "outside") ELSE <<>>)
  ELSE IF ~Ended(r) THEN <<"crash">>
  ELSE IF r.st = "err" THEN <<"writefailed">>
  ELSE If(r.b = e, "bytes") \o If(r.sz = Len(r.b), "psize") \o If(r.intact, "outside") \o If(r.end = -1 \/ r.end = c.off + Len(r.b), "end") \o Memory(r)

\* ---- arbitrary bytes: the message they encode, or a failure
AnyReadV(c, r) ==
  LET P == PS[c.s] x == Dec(P, c.m, c.b, 0) IN
  IF ~Ended(r) THEN <<"crash">>
  ELSE IF ~x.ok THEN (IF r.st = "ok" THEN <<IF x.e = "enum" THEN "acceptedenum" ELSE "accepted">> ELSE If(~r.wild, "uncontrolled") \o Memory(r))
  ELSE IF r.st = "err" THEN If(OddText(P, P.msg[c.m], x.v), "rejected") \o Memory(r)
  ELSE If(r.mt = c.m, "type") \o If(r.mt # c.m \/ Like(P, c.m, x.v, r.v), "value") \o If(r.pos = -1 \/ r.pos = c.off + x.p, "consumed") \o Memory(r)
AnyListV(P, x, r, whole) ==
  IF ~Ended(r) THEN <<"crash">>
  ELSE IF x.st = "err" THEN (IF r.st = "ok" THEN <<"accepted">> ELSE If(~r.wild, "uncontrolled") \o If(r.items = <<>> \/ ~whole, "partial") \o Memory(r))
  ELSE IF r.st = "err" THEN If(\E i \in 1..Len(x.out) : OddText(P, P.msg[x.out[i].m], x.out[i].v), "rejected") \o Memory(r)
  ELSE If(Len(r.items) = Len(x.out), "count")
       \o If(\A i \in 1..Len(r.items) : i > Len(x.out) \/ r.items[i].m = x.out[i].m, "types")
       \o If(\A i \in 1..Len(r.items) : i > Len(x.out) \/ r.items[i].m # x.out[i].m \/ Like(P, x.out[i].m, x.out[i].v, r.items[i].v), "values") \o Memory(r)
AnyStreamV(c, r) == LET P == PS[c.s] IN AnyListV(P, Process(P, c.b, 0, c.max), r, FALSE)
AnyUnpackV(c, r) == LET P == PS[c.s] IN AnyListV(P, Unpack(P, c.b, 0), r, TRUE)

\* ---- sessions: replay every observed call as a step of Session
RECURSIVE Writes(_, _, _, _, _)
Writes(P, c, s, i, r) ==
  IF i > Len(c.items) THEN [s |-> s, bad |-> <<>>]
  ELSE LET it == c.items[i] s2 == DoWrite(P, s, it.m, it.v, it.tag) IN
       IF i > Len(r.w) THEN [s |-> s2, bad |-> <<"writefailed">>]
       ELSE IF s2.wp # r.w[i] THEN [s |-> s2, bad |-> <<"position">>]
       ELSE Writes(P, c, s2, i + 1, r)
RECURSIVE Reads(_, _, _, _)
Reads(P, s, i, r) ==
  IF i > Len(s.log) THEN <<>>
  ELSE LET s2 == DoReadNext(P, s) n == Len(s2.got) IN
       IF i > Len(r.r) THEN <<"rejected">>
       ELSE IF r.r[i].items # <<s2.got[n]>> THEN <<"value">>
       ELSE IF r.r[i].pos # s2.rp THEN <<"position">>
       ELSE Reads(P, s2, i + 1, r)
SessionV(c, r) ==
  IF ~Ended(r) THEN <<"crash">>
  ELSE LET P == PS[c.s] w == Writes(P, c, Fresh(c.off + c.sz + c.sl, c.off), 1, r) IN
       IF w.bad # <<>> THEN w.bad
       ELSE If(r.b = SubSeq(w.s.buf, c.off + 1, w.s.wp), "bytes") \o If(r.intact, "outside") \o Reads(P, w.s, 1, r) \o Memory(r)

\* ---- fresh messages and types
DefaultV(c, r) ==
  LET P == PS[c.s] d == Default(P, c.m) IN
  IF ~Ended(r) THEN <<"crash">> ELSE IF r.st = "err" THEN <<"rejected">>
  ELSE If(r.v = d, "value") \o If(r.b = EncTagged(P, c.m, d, TRUE), "bytes") \o If(r.mt = c.m, "type")
       \o If(r.sz = Size(P, c.m, d) /\ r.sz2 = r.sz, "size") \o Memory(r)
TypesV(c, r) ==
  LET P == PS[c.s] IN
  IF r.st # "ok" THEN <<"crash">>
  ELSE If(Len(r.t) = Len(P.name), "count")
       \o If(\A i \in 1..Len(r.t) : i > Len(P.name) \/ r.t[i][2] = Tag(i), "constant")
       \o If(\A i \in 1..Len(r.t) : i > Len(P.name) \/ r.t[i][3] = Tag(i), "reported")
\* ---- histories: every observed call is a step of Lifecycle; r.steps[i] = [ok, e, fired, x (bad frees), c (blocks per holder), ...]
StepV(P, st, c, o) ==
  LET x == LC!Result(P, st, c) t == LC!After(P, st, c) h == LC!Holder(c)
      answer == IF o.fired THEN If(~o.ok /\ (c.o = "c" \/ o.e = "alloc"), "notreported")
                ELSE IF o.ok # x.ok THEN <<IF x.ok THEN "rejected" ELSE "accepted">>
                ELSE CASE c.o \in {"c", "s", "b"} \/ (c.o = "r" /\ x.ok) -> If(o.m = x.m, "type") \o If(o.m # x.m \/ o.v = x.v, "value") \o If(c.o # "r" \/ o.pos = c.off + Dec(P, x.m, c.b, 0).p, "consumed")
                       [] c.o \in {"w", "L", "K"} -> If(o.b = x.b, "bytes")
                       [] c.o = "g" -> If(o.n = x.n, "size")
                       [] c.o \in {"P", "U"} /\ x.ok -> If(o.items = x.items, "values")
                       [] OTHER -> <<>>
      partial == IF c.o \in {"P", "U"} /\ ~o.ok THEN (IF c.o = "U" THEN If(o.items = <<>>, "partial") ELSE If(\A i \in 1..Len(o.items) : o.items[i].m # 0, "partial")) ELSE <<>>
      mem == If(\A i \in 1..3 : LC!Within(o.c[i], LC!SlotBlocks(t.obj[i])), "leak") \o If(\A i \in 1..2 : LC!Within(o.c[3 + i], LC!ListBlocks(t.lst[i])), "leak")
             \o If(o.x = 0, "badfree") IN
  answer \o partial \o mem
\* blocks of holders that the call does not work on are not touched
OthersV(c, o, before) == If(\A i \in 1..5 : i = LC!Holder(c) \/ o.c[i] = before[i], "badfree")
RECURSIVE HistV(_, _, _, _, _)
HistV(P, c, r, i, st) ==
  IF i > Len(c.steps) THEN <<>>
  ELSE IF i > Len(r.steps) THEN <<"crash">>
  ELSE LET v == TLCEval(StepV(P, st, c.steps[i], r.steps[i]) \o OthersV(c.steps[i], r.steps[i], IF i = 1 THEN <<0, 0, 0, 0, 0>> ELSE r.steps[i - 1].c)) IN
       IF v # <<>> THEN v ELSE HistV(P, c, r, i + 1, TLCEval(LC!After(P, st, c.steps[i])))
HistoryV(c, r) == IF ~Ended(r) THEN <<"crash">> ELSE HistV(PS[c.s], c, r, 1, LC!Start)

\* ---- AssemblyScript: streams end where a message cannot be read, and undeclared enum numbers are read as unknown
LaxReadOf(P, m, b, off, r) ==
  LET x == Dec(Lax(P), m, b, 0) IN
  IF ~Ended(r) THEN <<"crash">>
  ELSE IF ~x.ok THEN (IF r.st = "ok" THEN <<"accepted">> ELSE If(~r.wild, "uncontrolled"))
  ELSE IF r.st = "err" THEN <<"rejected">>
  ELSE If(r.mt = m, "type") \o If(r.mt # m \/ LaxLike(P, m, x.v, r.v), "value") \o If(r.pos = -1 \/ r.pos = off + x.p, "consumed")
LaxItems(P, x, r) ==
  If(Len(r.items) = Len(x.out), "count") \o If(\A i \in 1..Len(r.items) : i > Len(x.out) \/ r.items[i].m = x.out[i].m, "types")
  \o If(\A i \in 1..Len(r.items) : i > Len(x.out) \/ r.items[i].m # x.out[i].m \/ LaxLike(P, x.out[i].m, x.out[i].v, r.items[i].v), "values")
LaxStreamV(c, r) ==
  LET P == PS[c.s] x == Process(Lax(P), c.b, 0, c.max) IN
  IF ~Ended(r) THEN <<"crash">> ELSE IF r.st = "err" THEN <<IF x.st = "err" THEN "uncontrolled" ELSE "rejected">>
  ELSE LaxItems(P, x, r) \o If(x.st # "ok" \/ c.max <= 0 \/ Len(x.out) # c.max \/ r.pos = c.off + x.pos, "consumed")
LaxUnpackV(c, r) ==
  LET P == PS[c.s] x == Unpack(Lax(P), c.b, 0) IN
  IF ~Ended(r) THEN <<"crash">>
  ELSE IF x.st = "err" THEN (IF r.st = "ok" THEN <<"accepted">> ELSE If(~r.wild, "uncontrolled"))
  ELSE IF r.st = "err" THEN <<"rejected">> ELSE LaxItems(P, x, r)
LaxV(c, r) ==
  CASE c.k = "w" -> WriteV(c, r) \o If(r.st # "err" \/ ~r.wild, "uncontrolled") [] c.k \in {"r", "xr"} -> LaxReadOf(PS[c.s], c.m, c.b, c.off, r)
    [] c.k = "cut" -> Cat([i \in 1..Len(r.at) |-> LaxReadOf(PS[c.s], c.m, SubSeq(c.b, 1, r.at[i]), c.off, r)])
    [] c.k = "rb" -> BackV(c, r) [] c.k = "pb" -> BackTaggedV(c, r) [] c.k \in {"p", "xp"} -> LaxStreamV(c, r) [] c.k \in {"u", "xu"} -> LaxUnpackV(c, r)
    [] c.k = "k" -> PackV(c, r) [] c.k = "q" -> SessionV(c, r) [] c.k = "d" -> DefaultV(c, r) [] c.k = "t" -> TypesV(c, r)

\* the generated code exists and builds
BuildV(c, r) == If(r.st = "ok", "build")

Plainly(c, r) ==
  CASE c.k = "w" -> WriteV(c, r) [] c.k = "r" -> ReadV(c, r) [] c.k = "cut" -> CutV(c, r) [] c.k = "rb" -> BackV(c, r) [] c.k = "pb" -> BackTaggedV(c, r)
    [] c.k = "p" -> StreamV(c, r) [] c.k = "u" -> UnpackV(c, r) [] c.k = "k" -> PackV(c, r) [] c.k = "q" -> SessionV(c, r) [] c.k = "h" -> HistoryV(c, r)
    [] c.k = "xr" -> AnyReadV(c, r) [] c.k = "xp" -> AnyStreamV(c, r) [] c.k = "xu" -> AnyUnpackV(c, r)
    [] c.k = "d" -> DefaultV(c, r) [] c.k = "t" -> TypesV(c, r) [] c.k = "build" -> BuildV(c, r)
\* an operation (c.op) one of whose allocations fails, then the same operation again with memory available
AllocV(c, r) ==
  (IF ~Ended(r) THEN <<"crash">> ELSE If(r.st = "err" /\ r.e = "alloc", "notreported") \o Memory(r))
  \o (IF ~Ended(r) THEN <<>> ELSE IF r.again.st = "none" THEN <<"retry">> ELSE If(Plainly([c EXCEPT !.k = c.op], r.again) = <<>>, "retry"))
Verdict(c, r) == IF r.lax THEN LaxV(c, r) ELSE IF c.k = "alloc" THEN AllocV(c, r) ELSE Plainly(c, r)

\* ---- the trace machine
VARIABLES l, bad
Init == l = 1 /\ bad = <<>>
\* one step per line: the failing (outcome, clauses) pairs of that line
Next == /\ l <= Len(T) /\ l' = l + 1
        /\ bad' = TLCEval(LET c == T[l] vs == [i \in 1..Len(c.obs) |-> Verdict(c, c.obs[i])] IN
                          SelectSeq([i \in 1..Len(c.obs) |-> [line |-> l, obs |-> i, clauses |-> vs[i]]], LAMBDA x : x.clauses # <<>>))
Report == (l = 1 => TLCSet(1, <<>>)) /\ (bad # <<>> => TLCSet(1, TLCGet(1) \o bad)) /\ TLCSet(2, l)
Done == JsonSerialize(IOEnv.VB_OUT, [consumed |-> TLCGet(2) - 1, lines |-> Len(T), bad |-> TLCGet(1)])
=============================================================================
