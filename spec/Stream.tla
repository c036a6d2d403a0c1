------------------------------- MODULE Stream -------------------------------
(* Streams of tagged messages (ProcessRawBytes) and packed buffers.          *)
EXTENDS Wire

\* One step of ProcessRawBytes. s = [pos, out, st], st \in {"run", "ok", "err"}
ProcStep(P, b, max, s) ==
  IF s.st # "run" THEN s
  ELSE IF (max >= 0 /\ Len(s.out) >= max) \/ s.pos >= Len(b) THEN [s EXCEPT !.st = "ok"]
  ELSE LET tag == b[s.pos + 1] IN
       IF tag = 0 THEN [s EXCEPT !.st = "ok", !.pos = s.pos + 1]
       ELSE IF ~IsTag(P, tag) THEN [s EXCEPT !.st = "err", !.e = "tag"]
       ELSE LET r == Dec(P, tag, b, s.pos + 1) IN
            IF ~r.ok THEN [s EXCEPT !.st = "err", !.e = r.e]
            ELSE [s EXCEPT !.pos = r.p, !.out = Append(@, [m |-> tag, v |-> r.v])]
\* every step but the last consumes at least one byte
RECURSIVE ProcRun(_, _, _, _)
ProcRun(P, b, max, s) == IF s.st # "run" THEN s ELSE ProcRun(P, b, max, TLCEval(ProcStep(P, b, max, s)))
Process(P, b, p, max) ==
  LET s0 == [pos |-> p, out |-> <<>>, st |-> "run", e |-> ""] IN
  IF Len(b) < 500 THEN ProcRun(P, b, max, s0)
  ELSE FoldLeft(LAMBDA s, i : TLCEval(ProcStep(P, b, max, s)), s0, [i \in 1..Len(b) - p + 1 |-> i])

Magic == <<66, 83, 67, 73>>   \* "BSCI"
Pack(P, items) ==
  Magic \o EncLen("uint32", Len(items))
        \o Cat([i \in 1..Len(items) |-> EncTagged(P, items[i].m, items[i].v, TRUE)]) \o <<0>>

\* an empty pack ends after the count: the reader need not look at the final zero byte
Unpack(P, b, p) ==
  IF ~Have(b, p, 4) THEN [st |-> "err", e |-> "eof", pos |-> -1, out |-> <<>>]
  ELSE IF SubSeq(b, p + 1, p + 4) # Magic THEN [st |-> "err", e |-> "magic", pos |-> -1, out |-> <<>>]
  ELSE IF ~Have(b, p + 4, 4) THEN [st |-> "err", e |-> "eof", pos |-> -1, out |-> <<>>]
  ELSE LET n == DecLen("uint32", b, p + 4) IN
       IF n < 0 THEN [st |-> "err", e |-> "count", pos |-> -1, out |-> <<>>]
       ELSE IF n = 0 THEN [st |-> "ok", e |-> "", pos |-> p + 8, out |-> <<>>]
       ELSE LET s == Process(P, b, p + 8, n) IN
            IF s.st = "ok" /\ Len(s.out) # n THEN [s EXCEPT !.st = "err", !.e = "count"] ELSE s
=============================================================================
