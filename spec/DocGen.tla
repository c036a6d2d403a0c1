------------------------------- MODULE DocGen -------------------------------
(* Documents around the border of acceptance: an accepted protocol, written  *)
(* as a document in some style, with none, one or two alterations out of a   *)
(* catalogue. State n takes the catalogue's entries in turn.                 *)
(* Environment: VB_PROTOS accepted protocols, VB_N documents, VB_SEED.       *)
EXTENDS WellFormed, Json, IOUtils, Randomization

N == atoi(IOEnv.VB_N)
Raws == JsonDeserialize(IOEnv.VB_PROTOS)
Draw(S) == RandomElement(S)
Chance(z, c) == RandomElement(IF z < 0 THEN {} ELSE 1..c) = 1

\* ---- a raw protocol as a document
MemDoc(ms) == [i \in 1..Len(ms) |-> <<ms[i][1], Str(IF ms[i][3] THEN "[" \o ms[i][2] \o "]" ELSE ms[i][2])>>]
RecDoc(r) == Tab(<<<<"_name", Str(r.name)>>>> \o MemDoc(r.members))
Dense(e) == \A i \in 1..Len(e.entries) : e.entries[i][2] = i - 1
EnumDoc(e, names) == Tab(<<<<"_name", Str(e.name)>>, <<"_values", Arr(
   IF names /\ Dense(e) THEN [i \in 1..Len(e.entries) |-> Str(e.entries[i][1])]
   ELSE [i \in 1..Len(e.entries) |-> Tab(<<<<"_name", Str(e.entries[i][1])>>, <<"_value", Num(e.entries[i][2])>>>>)])>>>>)
ToDoc(z, r) ==
  LET nm == TLCEval(Chance(z, 2)) meta == TLCEval(Chance(z, 4))
      m == (IF Chance(z, 3) THEN <<>> ELSE <<<<"namespace", Str("Doc")>>>>) \o <<<<"list_size_type", Str(r.lst)>>, <<"string_size_type", Str(r.str)>>>>
      sec(s, ts) == IF ts = <<>> /\ Chance(z, 2) THEN <<>> ELSE <<<<s, Arr(ts)>>>> IN
  [text |-> "ok", top |-> (IF meta THEN <<>> ELSE <<<<"meta", Tab(m)>>>>)
     \o sec("structs", [i \in 1..Len(r.structs) |-> RecDoc(r.structs[i])])
     \o sec("enums", [i \in 1..Len(r.enums) |-> EnumDoc(r.enums[i], nm)])
     \o sec("messages", [i \in 1..Len(r.messages) |-> RecDoc(r.messages[i])])]

\* ---- alterations
SetKey(t, key, v) == IF Has(t, key) THEN [i \in 1..Len(t) |-> IF t[i][1] = key THEN <<key, v>> ELSE t[i]] ELSE Append(t, <<key, v>>)
DropKey(t, key) == SelectSeq(t, LAMBDA e : e[1] # key)
Insert(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Tabs(d, s) == IF Has(d.top, s) /\ IsSection(Get(d.top, s)) THEN Get(d.top, s).a ELSE <<>>
PutTabs(d, s, a) == [d EXCEPT !.top = SetKey(@, s, Arr(a))]
PickTab(z, d, s) == IF Tabs(d, s) = <<>> THEN 0 ELSE RandomElement(1..Len(Tabs(d, s)))
OnTab(z, d, s, F(_)) == LET i == TLCEval(PickTab(z, d, s)) IN IF i = 0 THEN d ELSE PutTabs(d, s, [Tabs(d, s) EXCEPT ![i] = Tab(F(@.t))])
AddTab(z, d, s, t) == LET a == Tabs(d, s) i == TLCEval(RandomElement(0..Len(a))) IN PutTabs(d, s, Insert(a, i, Tab(t)))
AddMem(z, d, s, key, v) == OnTab(z, d, s, LAMBDA t : LET i == TLCEval(RandomElement(0..Len(t))) IN Insert(t, i, <<key, v>>))
\* the name of something declared in section s (or a name nothing has)
ANameIn(z, d, s) ==
  LET c == {i \in 1..Len(Tabs(d, s)) : IsStr(Tabs(d, s)[i].t, "_name")} IN
  IF c = {} THEN "Nobody" ELSE NameOf(Tabs(d, s)[RandomElement(c)])
Entry(nm, v) == Tab(<<<<"_name", nm>>, <<"_value", v>>>>)
En(nm, vs) == <<<<"_name", Str(nm)>>, <<"_values", vs>>>>

Bad == <<Num(5), Arr(<<Str("a")>>), Arr(<<>>), Tab(<<<<"namespace", Str("x")>>>>), [k |-> "bool", s |-> "true"], [k |-> "float", s |-> "1.5"]>>
S3 == <<"structs", "messages", "enums">>
S2 == <<"structs", "messages">>
RECURSIVE Cat2(_)
Cat2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat2(Tail(ss))
Cross(op, A, B) == Cat2([i \in 1..Len(A) |-> [j \in 1..Len(B) |-> <<op, A[i], B[j]>>]])
One(op, A) == [i \in 1..Len(A) |-> <<op, A[i]>>]

BadTypeNames == <<Str(""), Str("two words"), Str("\tTab"), Str("Line\n"), Str("form\ffeed"), Str("cr\rx"), Str("byte"), Str("bool"), Str("int16"), Str("uint16"), Str("int32"), Str("uint32"), Str("int64"), Str("uint64"), Str("float"), Str("double"), Str("string"), Str("list"), Str("Byte"), Str("String"), Str("LIST"), Str("Double"), Str("uInt16")>> \o Bad
GoodTypeNames == <<Str("Lists"), Str("byte2"), Str("_Name"), Str("x"), Str("Int8"), Str("Strings")>>
MemTypes == <<Str("byte"), Str("string"), Str("[string]"), Str("[double]"), Str("[bool]"), Str("Byte"), Str("list"), Str("[list]"), Str("int8"), Str("Unknown"), Str("[Unknown]"), Str("[[byte]]"), Str("[[string]]"), Str("[]"), Str(""), Str("["), Str("]"), Str("[byte"), Str("byte]"), Str(" byte"), Str("[ byte ]"), Str("[byte] "), Str("byte "), Str("_name")>> \o Bad
MemRefs == <<"struct", "message", "enum", "entry">>
Wraps == <<"plain", "list", "listlist">>
MemKeys == <<"", "two words", "tab\tx", " lead", "trail ", "nl\nx", "cr\rx", "ff\fx", "byte", "bool", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float", "double", "string", "list", "Byte", "List", "STRING", "lists", "byte_">>
HiddenVals == <<Str("byte"), Str("nonsense"), Str("")>> \o Bad
EntryLists == <<Arr(<<>>), Arr(<<Str("A")>>), Arr(<<Str("A"), Str("A")>>), Arr(<<Str("A"), Entry(Str("B"), Num(1))>>), Arr(<<Entry(Str("B"), Num(1)), Str("A")>>), Arr(<<Num(1), Num(2)>>), Arr(<<Str("A"), Num(2)>>),
   Arr(<<Entry(Str("A"), Num(1)), Entry(Str("B"), Num(1))>>), Arr(<<Entry(Str("A"), Num(1)), Entry(Str("A"), Num(2))>>), Arr(<<Entry(Str("A"), Num(7)), Entry(Str("B"), Num(3)), Entry(Str("C"), Num(7))>>),
   Arr(<<Entry(Str("A"), Num(2147483647)), Entry(Str("B"), Num(-2147483647 - 1))>>), Arr(<<Entry(Str("A"), [k |-> "big", s |-> "2147483648"])>>), Arr(<<Entry(Str("A"), Num(0)), Entry(Str("B"), [k |-> "big", s |-> "-2147483649"])>>), Arr(<<Entry(Str("A"), [k |-> "big", s |-> "4294967295"])>>),
   Arr(<<Entry(Str("A"), [k |-> "big", s |-> "9223372036854775807"]), Entry(Str("B"), Num(1))>>),
   Arr(<<Entry(Str("A"), Str("1"))>>), Arr(<<Entry(Str("A"), [k |-> "float", s |-> "1.0"])>>), Arr(<<Entry(Str("A"), [k |-> "bool", s |-> "true"])>>), Arr(<<Entry(Num(1), Num(1))>>), Arr(<<Entry(Arr(<<>>), Num(1))>>),
   Arr(<<Tab(<<<<"_name", Str("A")>>>>)>>), Arr(<<Tab(<<<<"_value", Num(1)>>>>)>>), Arr(<<Tab(<<>>)>>), Arr(<<Tab(<<<<"_name", Str("A")>>, <<"_value", Num(1)>>, <<"note", Str("x")>>>>)>>), Arr(<<Tab(<<<<"name", Str("A")>>, <<"value", Num(1)>>>>)>>),
   Arr(<<Str("")>>), Arr(<<Str("A B")>>), Arr(<<Str("A"), Str("B\t")>>), Arr(<<Entry(Str(""), Num(1))>>), Arr(<<Entry(Str("A"), Num(1)), Entry(Str("new\nline"), Num(2))>>), Arr(<<Str("A\r"), Str("B")>>), Arr(<<Str("A"), Str("\fB")>>),
   Str("A"), Num(3), Tab(<<<<"A", Num(1)>>>>), Arr(<<Arr(<<Str("A")>>)>>), Arr(<<Entry(Str("Neg"), Num(-1)), Entry(Str("Pos"), Num(255))>>)>>
Spaces == <<Str("Fine"), Str("fine_2"), Str("two words"), Str("tab\there"), Str(" x"), Str("x "), Str("a\nb"), Str("a\rb"), Str("a\fb")>> \o Bad
SizeNames == <<Str("byte"), Str("uint16"), Str("int16"), Str("uint32"), Str("int32"), Str("uint64"), Str("int64"), Str("bool"), Str("float"), Str("double"), Str("string"), Str("uint8"), Str("int8"), Str("Byte"), Str(""), Str(" byte"), Str("list"), Str("[byte]")>> \o Bad
SizeKeys == <<"list_size_type", "string_size_type">>

Catalogue ==
  <<<<"none">>>>
  \o One("dropname", S3) \o Cross("setname", S3, BadTypeNames \o GoodTypeNames) \o Cross("twin", S3, S3) \o Cross("twinlast", S3, S3)
  \o Cross("member", S2, MemTypes) \o Cat2([i \in 1..2 |-> Cat2([j \in 1..4 |-> [h \in 1..3 |-> <<"ref", S2[i], MemRefs[j], Wraps[h]>>]])])
  \o Cross("key", S2, MemKeys) \o Cross("keyname", S2, S3) \o Cross("hidden", S2, HiddenVals) \o One("dupkey", S2)
  \o One("entries", EntryLists) \o One("dropvalues", <<0>>) \o One("entryname", S3 \o <<"own", "self">>) \o One("enumhidden", HiddenVals)
  \o One("namespace", Spaces) \o Cross("size", SizeKeys, SizeNames) \o One("metaextra", HiddenVals) \o One("meta", SubSeq(Bad, 1, 1) \o SubSeq(Bad, 4, 6) \o <<Str("namespace")>>)
  \o Cross("section", S3, Bad \o <<Arr(<<Num(1)>>), Str("x"), Tab(<<<<"_name", Str("A")>>>>)>>) \o One("drop", S3 \o <<"meta", "all">>) \o One("topextra", HiddenVals) \o One("duptop", S3)
  \o One("count", <<1, 254, 255, 256, 257, 300>>) \o One("manystructs", <<256, 300>>) \o One("loop", <<"self", "selflist", "pair", "pairlist", "far", "rho", "none">>)
  \o One("text", <<"broken", "nul", "latin1", "missing", "directory", "unclosed", "empty", "bom">>)

Apply(z, d, a) ==
  CASE a[1] = "none" -> d
    [] a[1] = "dropname" -> OnTab(z, d, a[2], LAMBDA t : DropKey(t, "_name"))
    [] a[1] = "setname" -> OnTab(z, d, a[2], LAMBDA t : SetKey(t, "_name", a[3]))
    [] a[1] = "twin" -> LET nm == TLCEval(ANameIn(z, d, a[3])) IN AddTab(z, d, a[2], IF a[2] = "enums" THEN En(nm, Arr(<<Str("Q1"), Str("Q2")>>)) ELSE <<<<"_name", Str(nm)>>, <<"q", Str("byte")>>>>)
    [] a[1] = "twinlast" -> LET nm == TLCEval(ANameIn(z, d, a[3])) IN AddTab(z, d, a[2], IF a[2] = "enums" THEN En(nm, Arr(<<Entry(Str("Q1"), Num(4))>>)) ELSE <<<<"_name", Str(nm)>>>>)
    [] a[1] = "member" -> AddMem(z, d, a[2], "added", a[3])
    [] a[1] = "ref" ->
         LET nm == TLCEval(CASE a[3] = "struct" -> ANameIn(z, d, "structs") [] a[3] = "message" -> ANameIn(z, d, "messages") [] a[3] = "enum" -> ANameIn(z, d, "enums") [] OTHER -> "North")
             ty == CASE a[4] = "plain" -> nm [] a[4] = "list" -> "[" \o nm \o "]" [] OTHER -> "[[" \o nm \o "]]" IN
         AddMem(z, d, a[2], "added", Str(TLCEval(ty)))
    [] a[1] = "key" -> AddMem(z, d, a[2], a[3], Str("byte"))
    [] a[1] = "keyname" -> LET nm == TLCEval(ANameIn(z, d, a[3])) IN AddMem(z, d, a[2], nm, Str("byte"))
    [] a[1] = "hidden" -> AddMem(z, d, a[2], "_note", a[3])
    [] a[1] = "dupkey" -> AddMem(z, AddTab(z, d, a[2], <<<<"_name", Str("Twice")>>, <<"q", Str("byte")>>, <<"q", Str("byte")>>>>), a[2], "fine", Str("byte"))
    [] a[1] = "entries" -> AddTab(z, d, "enums", En("Added", a[2]))
    [] a[1] = "dropvalues" -> OnTab(z, d, "enums", LAMBDA t : DropKey(t, "_values"))
    [] a[1] = "entryname" ->
         LET nm == TLCEval(CASE a[2] = "own" -> "North" [] a[2] = "self" -> "Added" [] OTHER -> ANameIn(z, d, a[2])) IN
         IF Chance(z, 2) THEN AddTab(z, d, "enums", En("Added", Arr(<<Str("Qa"), Str(nm)>>))) ELSE AddTab(z, d, "enums", En("Added", Arr(<<Entry(Str(nm), Num(-5)), Entry(Str("Qa"), Num(300))>>)))
    [] a[1] = "enumhidden" -> OnTab(z, d, "enums", LAMBDA t : Append(t, <<"_note", a[2]>>))
    [] a[1] = "namespace" -> [d EXCEPT !.top = SetKey(@, "meta", Tab(SetKey(IF Has(@, "meta") /\ Get(@, "meta").k = "tab" THEN Get(@, "meta").t ELSE <<>>, "namespace", a[2])))]
    [] a[1] = "size" -> [d EXCEPT !.top = SetKey(@, "meta", Tab(SetKey(IF Has(@, "meta") /\ Get(@, "meta").k = "tab" THEN Get(@, "meta").t ELSE <<>>, a[2], a[3])))]
    [] a[1] = "metaextra" -> [d EXCEPT !.top = SetKey(@, "meta", Tab(SetKey(IF Has(@, "meta") /\ Get(@, "meta").k = "tab" THEN Get(@, "meta").t ELSE <<>>, "note", a[2])))]
    [] a[1] = "meta" -> [d EXCEPT !.top = SetKey(@, "meta", a[2])]
    [] a[1] = "section" -> [d EXCEPT !.top = SetKey(@, a[2], a[3])]
    [] a[1] = "drop" -> [d EXCEPT !.top = IF a[2] = "all" THEN <<>> ELSE DropKey(@, a[2])]
    [] a[1] = "topextra" -> [d EXCEPT !.top = Append(@, <<"notes", a[2]>>)]
    [] a[1] = "duptop" -> [d EXCEPT !.top = Append(@, <<a[2], Arr(<<>>)>>)]
    [] a[1] = "count" -> LET n == Len(Tabs(d, "messages")) IN PutTabs(d, "messages", Tabs(d, "messages") \o [i \in 1..(a[2] - n) |-> Tab(<<<<"_name", Str("Fill" \o ToString(i))>>>>)])
    [] a[1] = "manystructs" -> PutTabs(d, "structs", Tabs(d, "structs") \o [i \in 1..a[2] |-> Tab(<<<<"_name", Str("Fill" \o ToString(i))>>>>)])
    [] a[1] = "loop" ->
         LET T(nm, ty) == Tab(<<<<"_name", Str(nm)>>, <<"pre", Str("byte")>>, <<"to", Str(ty)>>>>)
             ts == CASE a[2] = "self" -> <<T("Lp", "Lp")>> [] a[2] = "selflist" -> <<T("Lp", "[Lp]")>> [] a[2] = "pair" -> <<T("Lp", "Lq"), T("Lq", "Lp")>>
                     [] a[2] = "pairlist" -> <<T("Lq", "[Lp]"), T("Lp", "Lq")>> [] a[2] = "far" -> <<T("La", "[Lb]"), T("Lb", "Lc"), T("Lc", "[Ld]"), T("Ld", "Le"), T("Le", "La")>>
                     [] a[2] = "rho" -> <<T("La", "Lb"), T("Lb", "Lc"), T("Lc", "[Lb]")>> [] OTHER -> <<T("La", "[Lb]"), T("Lb", "Lc"), T("Lc", "byte")>>
             old == Tabs(d, "structs") i == TLCEval(RandomElement(0..Len(old))) IN
         PutTabs(d, "structs", SubSeq(old, 1, i) \o ts \o SubSeq(old, i + 1, Len(old)))
    [] a[1] = "text" -> [d EXCEPT !.text = IF a[2] = "empty" THEN "ok" ELSE a[2], !.top = IF a[2] = "empty" THEN <<>> ELSE @]

VARIABLES n, doc, alt, ph
vars == <<n, doc, alt, ph>>
Init == n = 0 /\ doc = [text |-> "ok", top |-> <<>>] /\ alt = <<>> /\ ph = "base"
Write == ph = "base" /\ n < N /\ n' = n + 1 /\ ph' = "alter" /\ alt' = <<>>
  /\ doc' = TLCEval(ToDoc(n, Raws[RandomElement(1..(Len(Raws) + 0 * n))]))
\* the catalogue in turn, every fourth document with a second alteration
Alter == ph = "alter" /\ alt = <<>> /\ UNCHANGED n /\ ph' = (IF n % 4 = 0 THEN "alter" ELSE "done")
  /\ alt' = <<Catalogue[1 + ((n - 1 + 7 * atoi(IOEnv.VB_SEED)) % Len(Catalogue))]>> /\ doc' = TLCEval(Apply(n, doc, alt'[1]))
Alter2 == ph = "alter" /\ alt # <<>> /\ UNCHANGED n /\ ph' = "done"
  /\ alt' = TLCEval(Append(alt, Catalogue[RandomElement(1..(Len(Catalogue) + 0 * n))])) /\ doc' = TLCEval(Apply(n, doc, alt'[2]))
Done == ph = "done" /\ ph' = "base" /\ UNCHANGED <<n, doc, alt>>
Next == Write \/ Alter \/ Alter2 \/ Done
Emit == ph = "done" => PrintT("@@" \o ToJson([k |-> "doc", doc |-> doc, alt |-> ToString(alt)]))
\* protocols as the other specifications use them are accepted
BaseAccepted == (ph = "alter" /\ alt = <<>>) => Accept(doc)
=============================================================================
