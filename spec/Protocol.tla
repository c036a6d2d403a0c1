------------------------------ MODULE Protocol ------------------------------
(* An accepted protocol as the generators see it. A raw protocol is          *)
(*   [lst, str : size types,                                                 *)
(*    enums    : Seq([name, entries : Seq(<<entry name, number>>)]),         *)
(*    structs, messages : Seq([name, members : Seq(<<name, type, list?>>)])] *)
EXTENDS BeschiTypes

Names(ds) == {ds[i].name : i \in 1..Len(ds)}
Named(ds, n) == ds[CHOOSE i \in 1..Len(ds) : ds[i].name = n]

EnumNumbers(e) == {e.entries[i][2] : i \in 1..Len(e.entries)}
\* the smallest of byte, int16 and int32 that holds every declared number
EnumEncoding(e) ==
  LET ns == EnumNumbers(e) IN
  IF \A n \in ns : n \in 0..255 THEN "byte"
  ELSE IF \A n \in ns : n >= -32768 /\ n <= 32767 THEN "int16" ELSE "int32"
EnumDefault(e) == e.entries[1][2]

Members(d) == [i \in 1..Len(d.members) |-> [name |-> d.members[i][1], t |-> d.members[i][2], list |-> d.members[i][3]]]

\* lookup tables, computed once per protocol
Norm(r) ==
  LET en == Names(r.enums)  sn == Names(r.structs) IN
  [lst |-> r.lst, str |-> r.str,
   kind |-> [t \in BaseTypes \cup en \cup sn |->
               CASE t \in en -> "enum" [] t \in sn -> "struct" [] t = "string" -> "string" [] OTHER -> "num"],
   enc  |-> [t \in en |-> EnumEncoding(Named(r.enums, t))],
   nums |-> [t \in en |-> EnumNumbers(Named(r.enums, t))],
   dflt |-> [t \in en |-> EnumDefault(Named(r.enums, t))],
   mem  |-> [t \in sn |-> Members(Named(r.structs, t))],
   msg  |-> [i \in 1..Len(r.messages) |-> Members(r.messages[i])],
   name |-> [i \in 1..Len(r.messages) |-> r.messages[i].name]]

\* message type number: position in declaration order, from 1; 0 ends a list
Tag(i) == i
IsTag(P, b) == b >= 1 /\ b <= Len(P.msg)
=============================================================================
