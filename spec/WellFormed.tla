----------------------------- MODULE WellFormed -----------------------------
(* Protocol documents as they are written, and the rules that decide which   *)
(* of them are accepted. A document is a record                              *)
(*   [text : how the file is written ("ok", or a way of being no TOML),      *)
(*    top  : Seq(<<key, value>>)]                                            *)
(* and a value is one of                                                     *)
(*   [k |-> "str", s], [k |-> "int", n], [k |-> "big", s] (an integer        *)
(*   outside int32), [k |-> "float", s], [k |-> "bool", s],                  *)
(*   [k |-> "arr", a : Seq(value)], [k |-> "tab", t : Seq(<<key, value>>)].  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Base == {"byte", "bool", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float", "double", "string"}
Reserved == Base \cup {"list"}
IntegralSizes == {"byte", "uint16", "int16", "uint32", "int32", "uint64", "int64"}

Str(s) == [k |-> "str", s |-> s]
Num(n) == [k |-> "int", n |-> n]
Arr(a) == [k |-> "arr", a |-> a]
Tab(t) == [k |-> "tab", t |-> t]

\* ---- characters
Ch(s, i) == SubSeq(s, i, i)
Blank == {" ", "\t", "\n", "\r", "\f"}
HasBlank(s) == \E i \in 1..Len(s) : Ch(s, i) \in Blank
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LowerCh == "abcdefghijklmnopqrstuvwxyz"
ToLower(c) == IF \E i \in 1..26 : Ch(Upper, i) = c THEN Ch(LowerCh, CHOOSE i \in 1..26 : Ch(Upper, i) = c) ELSE c
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE ToLower(Ch(s, 1)) \o Lower(SubSeq(s, 2, Len(s)))

\* ---- tables
Has(t, key) == \E i \in 1..Len(t) : t[i][1] = key
Get(t, key) == t[CHOOSE i \in 1..Len(t) : t[i][1] = key][2]
NoDup(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
RECURSIVE KeysDistinct(_)
KeysDistinct(t) == NoDup([i \in 1..Len(t) |-> t[i][1]])
  /\ \A i \in 1..Len(t) : CASE t[i][2].k = "tab" -> KeysDistinct(t[i][2].t)
                            [] t[i][2].k = "arr" -> \A j \in 1..Len(t[i][2].a) : t[i][2].a[j].k = "tab" => KeysDistinct(t[i][2].a[j].t)
                            [] OTHER -> TRUE

Section(top, s) == IF Has(top, s) THEN Get(top, s) ELSE Arr(<<>>)
IsSection(v) == v.k = "arr" /\ \A i \in 1..Len(v.a) : v.a[i].k = "tab"
IsStr(t, key) == Has(t, key) /\ Get(t, key).k = "str"

\* ---- names
GoodName(s) == s # "" /\ ~HasBlank(s)
GoodTypeName(s) == GoodName(s) /\ Lower(s) \notin Reserved
NameOf(tab) == Get(tab.t, "_name").s
NamesOf(v) == [i \in 1..Len(v.a) |-> NameOf(v.a[i])]

\* ---- members: every key that does not begin with an underscore
MemberIdx(tab) == {i \in 1..Len(tab.t) : tab.t[i][1] = "" \/ Ch(tab.t[i][1], 1) # "_"}
IsList(ty) == Len(ty) >= 2 /\ Ch(ty, 1) = "[" /\ Ch(ty, Len(ty)) = "]"
Elem(ty) == IF IsList(ty) THEN SubSeq(ty, 2, Len(ty) - 1) ELSE ty
GoodMember(key, v, types) == GoodName(key) /\ key \notin Reserved /\ v.k = "str" /\ Elem(v.s) \in types
GoodRecord(tab, types) == GoodTypeName(NameOf(tab)) /\ \A i \in MemberIdx(tab) : GoodMember(tab.t[i][1], tab.t[i][2], types)

\* ---- enums
InInt32(v) == v.k = "int"            \* wider integers are written as "big"
GoodEntries(vs) ==
  /\ Len(vs) > 0
  /\ \/ \A i \in 1..Len(vs) : vs[i].k = "str"
     \/ \A i \in 1..Len(vs) : vs[i].k = "tab" /\ IsStr(vs[i].t, "_name") /\ Has(vs[i].t, "_value") /\ InInt32(Get(vs[i].t, "_value"))
EntryNames(vs) == [i \in 1..Len(vs) |-> IF vs[i].k = "str" THEN vs[i].s ELSE NameOf(vs[i])]
EntryNums(vs) == [i \in 1..Len(vs) |-> IF vs[i].k = "str" THEN i - 1 ELSE Get(vs[i].t, "_value").n]
GoodEnum(tab, taken) ==
  /\ GoodTypeName(NameOf(tab))
  /\ Has(tab.t, "_values") /\ Get(tab.t, "_values").k = "arr"
  /\ LET vs == Get(tab.t, "_values").a IN
     /\ GoodEntries(vs)
     /\ NoDup(EntryNames(vs)) /\ NoDup(EntryNums(vs))
     /\ \A i \in 1..Len(vs) : GoodName(EntryNames(vs)[i]) /\ EntryNames(vs)[i] \notin taken

\* ---- references between structs
Refs(tab, names) == {Elem(tab.t[i][2].s) : i \in MemberIdx(tab)} \cap names
\* take away, again and again, the structs that refer to none of those that are left
RECURSIVE Peel(_, _)
Peel(rf, left) == LET out == {i \in left : rf[i] \cap left = {}} IN IF out = {} THEN left ELSE Peel(rf, left \ out)
Acyclic(ss) ==
  LET idx == 1..Len(ss.a)
      names == TLCEval(NamesOf(ss))
      rf == TLCEval([i \in idx |-> LET r == TLCEval(Refs(ss.a[i], ToSet(names))) IN {j \in idx : names[j] \in r}]) IN
  Peel(rf, idx) = {}

GoodMeta(v) ==
  /\ v.k = "tab"
  /\ (~Has(v.t, "namespace") \/ (IsStr(v.t, "namespace") /\ ~HasBlank(Get(v.t, "namespace").s)))
  /\ \A key \in {"list_size_type", "string_size_type"} : ~Has(v.t, key) \/ (IsStr(v.t, key) /\ Get(v.t, key).s \in IntegralSizes)

\* the rules, in groups; each group presupposes the ones before it
Syntax(d) == d.text = "ok" /\ KeysDistinct(d.top)
Sections(d) == \A s \in {"structs", "messages", "enums"} : IsSection(Section(d.top, s))
Named(d) == \A s \in {"structs", "messages", "enums"} : \A i \in 1..Len(Section(d.top, s).a) : IsStr(Section(d.top, s).a[i].t, "_name")
Meta(d) == Has(d.top, "meta") => GoodMeta(Get(d.top, "meta"))
SN(d) == NamesOf(Section(d.top, "structs"))
MN(d) == NamesOf(Section(d.top, "messages"))
EN(d) == NamesOf(Section(d.top, "enums"))
Unique(d) == NoDup(SN(d) \o MN(d) \o EN(d))
Typed(d) == LET types == Base \cup ToSet(SN(d)) \cup ToSet(EN(d)) IN
  \A s \in {"structs", "messages"} : \A i \in 1..Len(Section(d.top, s).a) : GoodRecord(Section(d.top, s).a[i], types)
Enums(d) == \A i \in 1..Len(Section(d.top, "enums").a) : GoodEnum(Section(d.top, "enums").a[i], ToSet(SN(d)) \cup ToSet(MN(d)))
Few(d) == Len(MN(d)) <= 255
Loops(d) == Acyclic(Section(d.top, "structs"))

\* the first rule a document breaks, or "none"
Broken(d) ==
  CASE ~Syntax(d) -> "syntax" [] ~Meta(d) -> "meta" [] ~Sections(d) -> "sections" [] ~Named(d) -> "_name"
    [] ~Unique(d) -> "unique" [] ~Typed(d) -> "members" [] ~Enums(d) -> "enums" [] ~Few(d) -> "255" [] ~Loops(d) -> "cycle" [] OTHER -> "none"
Accept(d) == Broken(d) = "none"
=============================================================================
