------------------------------- MODULE Session ------------------------------
(* One buffer, written through one writer and read through one reader.       *)
(* A session is a record; each public call is one step on it:                *)
(*   buf    cap bytes, 170 where never written                               *)
(*   off    where the session starts in the buffer                           *)
(*   wp, rp positions of writer and reader                                   *)
(*   log    items written so far, [m, v, tag]                                *)
(*   got    items read so far, [m, v]                                        *)
(*   st     "run", "full" (a write did not fit) or "bad" (a read failed)     *)
EXTENDS Stream

Blank == 170
Fresh(cap, off) == [buf |-> [i \in 1..cap |-> Blank], cap |-> cap, off |-> off, wp |-> off, rp |-> off,
                    log |-> <<>>, got |-> <<>>, st |-> "run"]

Put(buf, p, e) == SubSeq(buf, 1, p) \o e \o SubSeq(buf, p + Len(e) + 1, Len(buf))

DoWrite(P, s, m, v, tag) ==
  LET e == EncTagged(P, m, v, tag) IN
  IF s.wp + Len(e) > s.cap THEN [s EXCEPT !.st = "full"]
  ELSE [s EXCEPT !.buf = Put(@, s.wp, e), !.wp = @ + Len(e), !.log = Append(@, [m |-> m, v |-> v, tag |-> tag])]

\* read message m at the reader's position; the reader sees the bytes written so far
DoRead(P, s, m) ==
  LET r == Dec(P, m, SubSeq(s.buf, 1, s.wp), s.rp) IN
  IF r.ok THEN [s EXCEPT !.rp = r.p, !.got = Append(@, [m |-> m, v |-> r.v])] ELSE [s EXCEPT !.st = "bad"]

\* ProcessRawBytes with limit 1
DoReadTagged(P, s) ==
  LET r == Process(P, SubSeq(s.buf, 1, s.wp), s.rp, 1) IN
  IF r.st = "ok" THEN [s EXCEPT !.rp = r.pos, !.got = @ \o r.out] ELSE [s EXCEPT !.st = "bad"]

\* read the next item the way it was written
DoReadNext(P, s) ==
  LET i == s.log[Len(s.got) + 1] IN IF i.tag THEN DoReadTagged(P, s) ELSE DoRead(P, s, i.m)

Untagged(log) == [i \in 1..Len(log) |-> [m |-> log[i].m, v |-> log[i].v]]
ItemSize(P, i) == (IF i.tag THEN 1 ELSE 0) + Size(P, i.m, i.v)

Faithful(s) == s.st # "bad" /\ IsPrefix(s.got, Untagged(s.log))
Positions(P, s) ==
  /\ s.wp = s.off + Sum([i \in 1..Len(s.log) |-> ItemSize(P, s.log[i])])
  /\ s.rp = s.off + Sum([i \in 1..Len(s.got) |-> ItemSize(P, s.log[i])])
Untouched(s) == \A i \in 1..s.cap : (i <= s.off \/ i > s.wp) => s.buf[i] = Blank
=============================================================================
