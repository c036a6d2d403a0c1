------------------------------ MODULE MCSession -----------------------------
(* Exhaustive model of one buffer shared by a writer and a reader: every     *)
(* interleaving of tagged and untagged writes and reads, every capacity up   *)
(* to MaxCap and every starting offset up to MaxOff.                         *)
EXTENDS Session
CONSTANTS MaxCap, MaxOff, MaxItems
Proto == [lst |-> "byte", str |-> "byte", enums |-> <<[name |-> "E", entries |-> <<<<"p", 5>>, <<"q", 170>>>>]>>, structs |-> <<>>,
  messages |-> <<[name |-> "Nil", members |-> <<>>], [name |-> "Txt", members |-> <<<<"s", "string", FALSE>>>>], [name |-> "Num", members |-> <<<<"e", "E", FALSE>>, <<"l", "byte", TRUE>>>>]>>]
P == Norm(Proto)
Vals == << {<<>>}, {<<<<>>>>, <<<<233>>>>}, {<<5, <<>>>>, <<170, <<0>>>>} >>
VARIABLE s
Init == \E c \in 0..MaxCap, o \in 0..MaxOff : o <= c /\ s = Fresh(c, o)
Write(m, v, tag) == s.st = "run" /\ Len(s.log) < MaxItems /\ s' = DoWrite(P, s, m, v, tag)
Read == s.st = "run" /\ Len(s.got) < Len(s.log) /\ s' = DoReadNext(P, s)
\* reading where nothing was written yet
ReadAhead(m) == s.st = "run" /\ Len(s.got) = Len(s.log) /\ P.msg[m] # <<>> /\ s' = DoRead(P, s, m)
Next == (\E m \in 1..3, tag \in BOOLEAN : \E v \in Vals[m] : Write(m, v, tag)) \/ Read \/ (\E m \in 1..3 : ReadAhead(m))
Spec == Init /\ [][Next]_s
FaithfulInv == (s.st = "bad" => Len(s.got) = Len(s.log)) /\ IsPrefix(s.got, Untagged(s.log))
PositionsInv == Positions(P, s)
UntouchedInv == Untouched(s) /\ s.wp <= s.cap
\* once everything is read the positions agree
Drained == Len(s.got) = Len(s.log) => s.rp = s.wp
=============================================================================
