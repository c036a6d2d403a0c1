------------------------------- MODULE Author -------------------------------
(* Random accepted protocols, authored step by step: first the size types,   *)
(* then enums, then structs (each may use the enums and the structs before   *)
(* it), then messages; finally the structs are put in any declaration order. *)
(* Environment: VB_N number of protocols, VB_BIG 1 for larger ones.          *)
EXTENDS Protocol, Json, IOUtils, Randomization

N == atoi(IOEnv.VB_N)
BIG == IOEnv.VB_BIG = "1"
Draw(S) == RandomElement(S)
\* z is a state variable: TLC evaluates constant expressions only once
Pick(z, S) == RandomElement(IF z < 0 THEN {} ELSE S)
Chance(n) == RandomElement(1..n) = 1

StructNames == <<"Alpha", "Bravo", "Carton", "CartonBox", "Al", "Fjord", "AlphaCar", "Hotel9Bar">>
EnumNames == <<"Mood", "Rank", "ShadeKind", "Phase4">>
MsgNames == <<"Ping", "Quote", "RiverReport", "PingBack", "Tick", "Ticket", "Voyage", "WireXfer", "Yield", "Zebra">>
EntryNames == <<"North", "East", "South", "West", "UpOne", "Down2", "LeftSide", "Mid", "Far", "Near">>
MemberNames == <<"alpha1", "beta", "gammaRay", "alpha", "be", "zeta", "etaValue", "theta9", "iota", "kappa", "lambdaX", "mu", "Nu", "xi", "omicron">>
NameSpaces == <<"", "Rnd", "RandomSpace", "ns2">>

RECURSIVE Shuffle(_)
Shuffle(s) == IF s = <<>> THEN <<>> ELSE LET i == TLCEval(Draw(1..Len(s))) IN <<s[i]>> \o Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
Take(s, n) == SubSeq(s, 1, n)

Numbers == {0, 1, 2, 3, 7, 42, 100, 127, 128, 254, 255}
Wide16 == Numbers \cup {-1, -2, -128, 256, 257, 1000, 32767, -32768}
Wide32 == Wide16 \cup {32768, -32769, 65535, 65536, 70000, 2147483647, -2147483647 - 1}
RECURSIVE Distinct(_, _)
Distinct(S, n) == IF n = 0 THEN <<>> ELSE LET x == TLCEval(Draw(S)) IN <<x>> \o Distinct(S \ {x}, n - 1)
RandEnum(name) ==
  LET n == TLCEval(Draw(1..(IF BIG THEN 7 ELSE 5)))
      style == TLCEval(Draw(1..5))
      nums == TLCEval(CASE style = 1 -> [i \in 1..n |-> i - 1] [] style = 2 -> Distinct(Numbers, n) [] style = 3 -> Distinct(0..6, n) [] style = 4 -> Distinct(Wide16, n) [] OTHER -> Distinct(Wide32, n))
      es == TLCEval(Take(Shuffle(EntryNames), n)) IN
  [name |-> name, entries |-> [i \in 1..n |-> <<es[i], nums[i]>>]]

\* a member of type base, enum or one of the given structs
RandType(en, sn) ==
  LET k == TLCEval(Draw(1..10)) IN
  CASE k <= 2 /\ en # {} -> Draw(en) [] k \in 3..5 /\ sn # {} -> Draw(sn) [] k = 6 -> "string" [] OTHER -> Draw(BaseTypes)
RandMembers(en, sn, max) ==
  LET n == TLCEval(Draw(IF Chance(8) THEN 0..1 ELSE 1..max)) ns == TLCEval(Take(Shuffle(MemberNames), n)) IN
  [i \in 1..n |-> <<ns[i], TLCEval(RandType(en, sn)), TLCEval(Chance(3))>>]
\* a struct of fixed size: numbers, enums and other such structs
RandFlat(en, sn, max) ==
  LET n == TLCEval(Draw(1..max)) ns == TLCEval(Take(Shuffle(MemberNames), n)) IN
  [i \in 1..n |-> <<ns[i], TLCEval(Draw(IF sn # {} /\ Chance(3) THEN sn ELSE IF en # {} /\ Chance(4) THEN en ELSE NumTypes)), FALSE>>]

VARIABLES n, ph, pr, flat, left
vars == <<n, ph, pr, flat, left>>
Blank == [ns |-> "", lst |-> "uint32", str |-> "uint32", enums |-> <<>>, structs |-> <<>>, messages |-> <<>>]
Init == n = 0 /\ ph = "start" /\ pr = Blank /\ flat = {} /\ left = 0

Start == ph = "start" /\ n < N /\ ph' = "enums" /\ n' = n + 1 /\ flat' = {}
  /\ left' = TLCEval(Pick(n, 0..(IF BIG THEN 4 ELSE 3)))
  /\ pr' = TLCEval([Blank EXCEPT !.ns = NameSpaces[Pick(n, 1..4)], !.lst = Pick(n, SizeTypes), !.str = Pick(n, SizeTypes)])
AddEnum == ph = "enums" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<n, ph, flat>>
  /\ pr' = TLCEval([pr EXCEPT !.enums = Append(@, RandEnum(EnumNames[Len(@) + 1]))])
EnumsDone == ph = "enums" /\ left = 0 /\ ph' = "structs" /\ left' = TLCEval(Pick(n, 0..(IF BIG THEN 8 ELSE 5))) /\ UNCHANGED <<n, pr, flat>>
AddStruct == ph = "structs" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<n, ph>>
  /\ LET nm == StructNames[Len(pr.structs) + 1] f == TLCEval((Pick(n, 1..3) = 1)) IN
     /\ flat' = (IF f THEN flat \cup {nm} ELSE flat)
     /\ pr' = TLCEval([pr EXCEPT !.structs = Append(@, [name |-> nm, members |-> IF f THEN RandFlat(Names(pr.enums), flat, 4) ELSE RandMembers(Names(pr.enums), Names(pr.structs), 5)])])
StructsDone == ph = "structs" /\ left = 0 /\ ph' = "messages" /\ left' = TLCEval(Pick(n, 1..(IF BIG THEN 10 ELSE 5))) /\ UNCHANGED <<n, pr, flat>>
AddMessage == ph = "messages" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED <<n, ph, flat>>
  /\ pr' = TLCEval([pr EXCEPT !.messages = Append(@, [name |-> MsgNames[Len(@) + 1], members |-> RandMembers(Names(pr.enums), Names(pr.structs), IF BIG THEN 8 ELSE 5)])])
Publish == ph = "messages" /\ left = 0 /\ ph' = "done" /\ UNCHANGED <<n, left, flat>>
  /\ pr' = TLCEval([pr EXCEPT !.structs = Shuffle(@), !.enums = Shuffle(@), !.messages = Shuffle(@)])
Again == ph = "done" /\ ph' = "start" /\ UNCHANGED <<n, pr, flat, left>>
Next == Start \/ AddEnum \/ EnumsDone \/ AddStruct \/ StructsDone \/ AddMessage \/ Publish \/ Again

\* what is published is well formed: every type is declared, no struct contains itself
Uses(d) == {d.members[i][2] : i \in 1..Len(d.members)}
RECURSIVE Reach(_, _)
Reach(S, seen) == LET new == UNION {Uses(Named(pr.structs, s)) \cap Names(pr.structs) : s \in S} \ seen IN IF new = {} THEN seen ELSE Reach(new, seen \cup new)
Sound == ph = "done" =>
  /\ \A d \in ToSet(pr.structs \o pr.messages) : Uses(d) \subseteq BaseTypes \cup Names(pr.enums) \cup Names(pr.structs)
  /\ \A s \in Names(pr.structs) : s \notin Reach({s}, {})
  /\ \A d \in ToSet(pr.structs \o pr.messages) : Cardinality({d.members[i][1] : i \in 1..Len(d.members)}) = Len(d.members)
  /\ \A e \in ToSet(pr.enums) : Cardinality({e.entries[i][1] : i \in 1..Len(e.entries)}) = Len(e.entries) /\ Cardinality(EnumNumbers(e)) = Len(e.entries)
Emit == ph = "done" => PrintT("@@" \o ToJson(pr))
=============================================================================
