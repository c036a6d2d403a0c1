-------------------------------- MODULE Gen ---------------------------------
(* Case generator. One step of the machine draws one value (or a sequence of *)
(* items) for one message of one protocol; the next step derives from it the *)
(* cases of the requested kind and emits them, one JSON object per line.     *)
(* The model's own properties are checked on every drawn value (Sound).      *)
(* Environment: VB_PROTOS protocols, VB_KIND kind, VB_N number of draws,     *)
(* VB_LEVEL 1 quick, 2 thorough.                                             *)
EXTENDS Values, Session, Json, IOUtils, Randomization
LC == INSTANCE Lifecycle WITH NSlots <- 3, NLists <- 2

Raw == JsonDeserialize(IOEnv.VB_PROTOS)
PS == TLCEval([i \in 1..Len(Raw) |-> Norm(Raw[i])])
KIND == IOEnv.VB_KIND
N == atoi(IOEnv.VB_N)
LEVEL == atoi(IOEnv.VB_LEVEL)

\* every (protocol, message) pair, in order; protocols with many messages are sampled by MaxMsgs
MaxMsgs == 14
Pairs == TLCEval(Cat([i \in 1..Len(PS) |-> [j \in 1..(IF Len(PS[i].msg) > MaxMsgs THEN MaxMsgs ELSE Len(PS[i].msg)) |-> <<i, j>>]]))
PairOf(k) == LET pr == Pairs[((k - 1) % Len(Pairs)) + 1] P == PS[pr[1]] IN
             IF Len(P.msg) > MaxMsgs THEN <<pr[1], Draw(1..Len(P.msg))>> ELSE pr
Round(k) == (k - 1) \div Len(Pairs)

VARIABLES k, ph, cur, out
vars == <<k, ph, cur, out>>

Mode(r) == IF r = 0 THEN 1 ELSE IF r = 1 THEN 0 ELSE IF Chance(4) THEN 3 ELSE 2

\* ---- drawing
RECURSIVE Items(_, _, _, _)
Items(P, n, md, tagged) ==
  IF n = 0 THEN <<>>
  ELSE LET m == Draw(1..Len(P.msg)) IN
       <<[m |-> m, v |-> TLCEval(RMsg(P, m, IF md = 3 /\ n > 1 THEN 2 ELSE md)), tag |-> IF tagged THEN TRUE ELSE Chance(2)]>> \o Items(P, n - 1, md, tagged)

DrawOne(kk) ==
  LET pm == TLCEval(PairOf(kk)) md == TLCEval(Mode(Round(kk))) P == PS[pm[1]] IN
  [s |-> pm[1], m |-> pm[2], v |-> TLCEval(RMsg(P, pm[2], md))]
RECURSIVE AllItems(_, _, _)
AllItems(P, m, md) == IF m > Len(P.msg) THEN <<>> ELSE <<[m |-> m, v |-> TLCEval(RMsg(P, m, md)), tag |-> TRUE]>> \o AllItems(P, m + 1, md)
\* ---- long strings, long lists and long sequences of messages: lengths around the boundaries of 16-bit numbers
Simple(P, t) == P.kind[t] # "struct" \/ (MinSize(P, t) \in 1..12 /\ \A i \in 1..Len(P.mem[t]) : ~P.mem[t][i].list /\ P.kind[P.mem[t][i].t] \in {"num", "enum"})
BigMembers(P, m) == {i \in 1..Len(P.msg[m]) : IF P.msg[m][i].list THEN Simple(P, P.msg[m][i].t) ELSE P.kind[P.msg[m][i].t] = "string"}
BigPairs == TLCEval(SelectSeq(Pairs, LAMBDA pr : BigMembers(PS[pr[1]], pr[2]) # {}))
BigLen(cap, most) == LET S == {n \in {32767, 32768, 40000, 65535, 65536, 65537, 70000} : n <= cap /\ n <= most} IN
                     IF S = {} THEN cap ELSE LET x == {n \in S : n > 65535} IN IF x # {} /\ Chance(2) THEN Draw(x) ELSE Draw(S)
\* n elements out of seven different ones
Repeat(some, n, last) == Append([i \in 1..n - 1 |-> some[(((i % 997) * (i % 997) + (i \div 5)) % 7) + 1]], last)
BigString(P) == LET n == TLCEval(BigLen(SizeCap(P.str), 70000)) c == TLCEval(Draw(65..90)) w == TLCEval(Draw({1, 2, 3, 4})) u == TLCEval(CASE w = 2 -> 233 [] w = 3 -> 8364 [] w = 4 -> 128512 [] OTHER -> 48) IN
                TLCEval([i \in 1..n \div w |-> u] \o [i \in 1..n % w |-> c])
BigList(P, t) == LET n == TLCEval(BigLen(SizeCap(P.lst), 70000)) some == TLCEval([i \in 1..7 |-> RVal(P, t, 2, 3)]) last == TLCEval(RVal(P, t, 2, 3)) IN TLCEval(Repeat(some, n, last))
DrawBig(kk) ==
  LET pr == BigPairs[((kk * 7 + kk \div Len(BigPairs)) % Len(BigPairs)) + 1] P == PS[pr[1]] ms == P.msg[pr[2]]
      big == TLCEval(Draw(BigMembers(P, pr[2]))) IN
  [s |-> pr[1], m |-> pr[2], v |-> TLCEval([i \in 1..Len(ms) |-> IF i = big THEN (IF ms[i].list THEN BigList(P, ms[i].t) ELSE BigString(P)) ELSE TLCEval(RMember(P, ms[i], 1, 0))])]
\* sequences of up to 66000 messages of at most ten bytes, taken from seven
DrawBigMany(kk) ==
  LET ok == {i \in 1..Len(PS) : Len(PS[i].msg) > 0 /\ \E m \in 1..Len(PS[i].msg) : Size(PS[i], m, Default(PS[i], m)) <= 4}
      s == TLCEval(Draw(ok)) P == PS[s] ms == {m \in 1..Len(P.msg) : Size(P, m, Default(P, m)) <= 4}
      some == TLCEval([i \in 1..7 |-> LET m == TLCEval(Draw(ms)) IN [m |-> m, v |-> TLCEval(IF Len(P.msg[m]) = 1 /\ ~P.msg[m][1].list /\ P.kind[P.msg[m][1].t] = "num" THEN RMsg(P, m, 2) ELSE Default(P, m)), tag |-> TRUE]])
      n == TLCEval(IF kk = 1 THEN Draw({65536, 65537, 66000}) ELSE Draw({255, 256, 257, 300, 1000, 2000})) IN
  [s |-> s, items |-> TLCEval(Repeat(some, n, some[1]))]
DrawMany(kk) ==
  IF KIND = "bigm" THEN DrawBigMany(kk) ELSE
  IF KIND \in {"h", "hf"} THEN [s |-> ((kk - 1) % Len(PS)) + 1, items |-> <<>>] ELSE
  IF KIND = "tags" THEN LET s == ((kk - 1) % Len(PS)) + 1 IN [s |-> s, items |-> TLCEval(AllItems(PS[s], 1, IF kk <= Len(PS) THEN 1 ELSE 2))] ELSE
  LET s == ((kk - 1) % Len(PS)) + 1 P == PS[s]
      \* protocols with no message only have the empty sequence
      n == IF Len(P.msg) = 0 THEN 0 ELSE IF kk <= Len(PS) THEN 3 ELSE IF Chance(12) THEN Draw(6..20) ELSE Draw(0..5) IN
  [s |-> s, items |-> TLCEval(Items(P, n, IF kk <= Len(PS) THEN 1 ELSE Draw({1, 2, 2, 2, 3}), KIND # "q"))]

\* ---- deriving
Bytes(P, items) == Cat([i \in 1..Len(items) |-> EncTagged(P, items[i].m, items[i].v, TRUE)])
Offs(z) == IF Chance(2) THEN 0 ELSE Draw({1, 2, 3, 5, 7, 8, 64})
Place(z) == [vo |-> IF Chance(2) THEN 0 ELSE Draw({1, 3, 8, 13}), off |-> Offs(0), tr |-> IF Chance(2) THEN 0 ELSE Draw({1, 4, 16})]
NoPlace == [vo |-> 0, off |-> 0, tr |-> 0]

\* write and read back
RtCases(c) ==
  LET P == PS[c.s] b == Enc(P, c.m, c.v) p == TLCEval(Place(0)) q == TLCEval(Place(0)) IN
  << [k |-> "w", s |-> c.s, m |-> c.m, v |-> c.v, tag |-> 0, sl |-> Draw({0, 0, 1, 9}), sz |-> Len(b), gen |-> 0] @@ p,
     [k |-> "w", s |-> c.s, m |-> c.m, v |-> c.v, tag |-> 1, sl |-> 0, sz |-> Len(b) + 1, gen |-> Draw({0, 1})] @@ q >>

BigCases(c) ==
  LET P == PS[c.s] b == TLCEval(Enc(P, c.m, c.v)) n == Len(b) cut == TLCEval({0, n - 1, n - 2, n \div 2, Draw(1..n - 1)}) IN
  << [k |-> "w", s |-> c.s, m |-> c.m, v |-> c.v, tag |-> 0, sl |-> Draw({0, 0, 1, 9}), sz |-> n, gen |-> 0] @@ NoPlace,
     [k |-> "r", s |-> c.s, m |-> c.m, b |-> b, style |-> Draw(0..3)] @@ TLCEval(Place(0)),
     [k |-> "cut", s |-> c.s, m |-> c.m, b |-> b, cuts |-> SetToSeq(cut), style |-> Draw(0..2)] @@ NoPlace >>
BigManyCases(c) ==
  LET P == PS[c.s] b == TLCEval(Bytes(P, c.items)) n == Len(c.items) IN
  << [k |-> "k", s |-> c.s, items |-> [i \in 1..n |-> [m |-> c.items[i].m, v |-> c.items[i].v]], sz |-> Len(b) + 9, sl |-> 0] @@ NoPlace,
     [k |-> "u", s |-> c.s, b |-> Magic \o EncLen("uint32", n) \o b \o <<0>>] @@ NoPlace,
     [k |-> "u", s |-> c.s, b |-> Magic \o EncLen("uint32", n + 1) \o b \o <<0>>] @@ NoPlace,
     [k |-> "p", s |-> c.s, b |-> b, max |-> -1] @@ NoPlace, [k |-> "p", s |-> c.s, b |-> b, max |-> n - Draw({0, 1, 100})] @@ NoPlace >>

\* reading at any place, with any style
PosCases(c) ==
  LET P == PS[c.s] b == Enc(P, c.m, c.v) IN
  [i \in 1..4 |-> [k |-> "r", s |-> c.s, m |-> c.m, b |-> b \o (IF i = 4 THEN <<255, 1, 0, 7>> ELSE <<>>), style |-> i - 1] @@ TLCEval(Place(i))]

SomeOf(n, lim) == IF n <= lim THEN 0..n - 1 ELSE (0..11) \cup ((n - 12)..(n - 1)) \cup {(i * (n \div 40)) : i \in 1..39} \cup RandomSubset(lim - 64, 0..n - 1)
CutCases(c) ==
  LET P == PS[c.s] b == Enc(P, c.m, c.v) IN
  IF b = <<>> THEN <<>>
  ELSE <<[k |-> "cut", s |-> c.s, m |-> c.m, b |-> b, cuts |-> SetToSeq(SomeOf(Len(b), IF LEVEL > 1 THEN 600 ELSE 100)), style |-> Draw(0..2)] @@ (IF Chance(3) THEN TLCEval(Place(0)) ELSE NoPlace)>>

EncMin(t) == CASE t = "byte" -> 0 [] t = "int16" -> -32768 [] OTHER -> -2147483647 - 1
EncMax(t) == CASE t = "byte" -> 255 [] t = "int16" -> 32767 [] OTHER -> 2147483647
Step(t, n, d) == IF d = 1 THEN (IF n = EncMax(t) THEN n ELSE n + 1) ELSE (IF n = EncMin(t) THEN n ELSE n - 1)
Interesting(t) == {EncMin(t), EncMax(t), 0, 1, 2, 3, 6, 7, 42, 100, 127} \cup (IF t = "byte" THEN {} ELSE {-1, -2, 128, 255, 256, 1000}) \cup (IF t = "int32" THEN {32767, 32768, 65535, 65536, 66000, -32768} ELSE {})
EnumNumbersToTry(P, e) == LET t == P.enc[e] IN Interesting(t) \cup P.nums[e] \cup {Step(t, n, d) : n \in P.nums[e], d \in {0, 1}}
Patch(b, p, e) == SubSeq(b, 1, p) \o e \o SubSeq(b, p + Len(e) + 1, Len(b))
EnumCases(c) ==
  LET P == PS[c.s] b == Enc(P, c.m, c.v) sites == EnumSites(P, c.m, c.v)
      some == IF Len(sites) <= (IF LEVEL > 1 THEN 40 ELSE 8) THEN 1..Len(sites) ELSE RandomSubset(IF LEVEL > 1 THEN 40 ELSE 8, 1..Len(sites)) \cup {1, Len(sites)} IN
  IF sites = <<>> \/ Len(b) > 2000 THEN <<>>
  ELSE LET ss == SetToSeq(some) IN
       Cat([i \in 1..Len(ss) |->
         LET st == sites[ss[i]] t == P.enc[st.t] ns == EnumNumbersToTry(P, st.t)
             pick == SetToSeq(IF LEVEL > 1 \/ Cardinality(ns) <= 14 THEN ns ELSE RandomSubset(14, ns)) IN
         [j \in 1..Len(pick) |->
            LET x == Patch(b, st.p, EncNum(t, pick[j])) IN
            IF Chance(6) THEN [k |-> "p", s |-> c.s, b |-> <<Tag(c.m)>> \o x, max |-> -1] @@ NoPlace
            ELSE [k |-> "r", s |-> c.s, m |-> c.m, b |-> x, style |-> 0] @@ NoPlace]])

\* ---- arbitrary bytes: lengths that promise too much or are negative, flipped, dropped and added bytes, noise
EncBig(t, x) == LET w == NumSize[t] IN
  CASE x = "ones" -> [i \in 1..w |-> 255]
    [] x = "most" -> [i \in 1..w |-> IF i = w /\ t \in {"int16", "int32", "int64"} THEN 127 ELSE 255]
    [] x = "least" -> [i \in 1..w |-> IF i = w THEN 128 ELSE 0]
    [] x = "minus" -> [i \in 1..w |-> IF i = 1 THEN Draw({254, 240, 128, 1}) ELSE 255]
    [] x = "high" -> [i \in 1..w |-> IF i = w THEN Draw({1, 16, 64, 127, 128, 192}) ELSE Draw({0, 255, Draw(0..255)})]
    [] x = "mid" -> [i \in 1..w |-> IF i = (w + 1) \div 2 + 1 THEN Draw({1, 128, 255}) ELSE Draw({0, 1, 3})]
LenPatches(b, st) ==
  LET w == NumSize[st.t] rest == Len(b) - st.p - w same == SubSeq(b, st.p + 1, st.p + w)
      small == {x \in {st.n + 1, st.n - 1, rest + 1, rest, 0, st.n + 256, 2 * st.n + 1} : x >= 0 /\ x <= SizeCap(st.t)} IN
  [x \in 1..Len(SetToSeq(small)) |-> EncLen(st.t, SetToSeq(small)[x])]
  \o (IF ~st.f THEN <<>> ELSE [j \in 1..6 |-> EncBig(st.t, <<"ones", "most", "least", "minus", "high", "mid">>[j])]
       \* the length itself with something in its upper half
       \o (IF w = 8 THEN << [same EXCEPT ![5] = 1], [same EXCEPT ![8] = 128], [same EXCEPT ![8] = 16], [same EXCEPT ![6] = 255] >> ELSE IF w = 4 THEN << [same EXCEPT ![4] = 128], [same EXCEPT ![3] = 1] >> ELSE <<>>))
RECURSIVE Flips(_, _)
Flips(b, n) == IF n = 0 \/ b = <<>> THEN b ELSE LET i == Draw(1..Len(b)) IN Flips([b EXCEPT ![i] = IF Chance(2) THEN Draw(0..255) ELSE Draw({0, 1, 127, 128, 254, 255, (b[i] + 1) % 256, (b[i] + 128) % 256})], n - 1)
Noise2(z) == TLCEval([i \in 1..Draw(0..40) |-> IF Chance(2) THEN Draw(0..255) ELSE Draw({0, 1, 2, 255})])
Cutout(b) == LET i == Draw(0..Len(b)) j == Draw(0..Len(b)) IN IF i <= j THEN SubSeq(b, 1, i) \o SubSeq(b, j + 1, Len(b)) ELSE SubSeq(b, 1, i) \o SubSeq(b, j + 1, Len(b))
Mangle(b) == TLCEval(LET w == TLCEval(Draw(1..6)) IN
  CASE w = 1 -> Flips(b, 1) [] w = 2 -> Flips(b, Draw(2..6)) [] w = 3 -> Cutout(b) [] w = 4 -> Noise2(0)
    [] w = 5 -> SubSeq(b, 1, Draw(0..Len(b))) \o Noise2(1) [] OTHER -> Flips(Cutout(b), 1))
AnyCases(c) ==
  LET P == PS[c.s] b == TLCEval(Enc(P, c.m, c.v)) sites == TLCEval(LenSites(P, c.m, c.v))
      lim == IF LEVEL > 1 THEN 12 ELSE 3
      some == TLCEval(SetToSeq(IF Len(sites) <= lim THEN 1..Len(sites) ELSE RandomSubset(lim, 1..Len(sites)) \cup {1, Len(sites)}))
      patched == TLCEval(Cat([i \in 1..Len(some) |-> LET st == sites[some[i]] ps == TLCEval(LenPatches(b, st)) IN [j \in 1..Len(ps) |-> Patch(b, st.p, ps[j])]]))
      mangled == TLCEval([i \in 1..(IF LEVEL > 1 THEN 20 ELSE 7) |-> Mangle(b)])
      tagged == <<Tag(c.m)>> \o b
      rd(x) == [k |-> "xr", s |-> c.s, m |-> c.m, b |-> x, style |-> Draw(0..2)] @@ (IF Chance(4) THEN TLCEval(Place(0)) ELSE NoPlace)
      pr(x, max) == [k |-> "xp", s |-> c.s, b |-> x, max |-> max] @@ NoPlace
      un(x) == [k |-> "xu", s |-> c.s, b |-> x] @@ NoPlace
      all == patched \o mangled
      \* a run of empty elements that nobody can count to is left open
      counted(x) == Dec(P, c.m, x, 0).e # "uncounted"
      countedS(x) == Process(P, x, 0, -1).e # "uncounted"
      keep == TLCEval(SelectSeq(all, counted)) IN
  IF Len(b) > 3000 THEN <<>>
  ELSE [i \in 1..Len(keep) |-> rd(keep[i])]
       \o LET two == TLCEval([i \in 1..4 |-> LET x == TLCEval(all[Draw(1..Len(all))]) IN CASE i = 1 -> tagged \o <<Tag(c.m)>> \o x [] i = 2 -> <<Tag(c.m)>> \o x \o tagged [] i = 3 -> Mangle(tagged \o tagged) [] OTHER -> Mangle(tagged)])
               ok == TLCEval(SelectSeq(two, countedS)) IN
          [i \in 1..Len(ok) |-> pr(ok[i], Draw({-1, 1, 2, 3}))] \o [i \in 1..Len(ok) |-> un(Magic \o EncLen("uint32", Draw(1..3)) \o ok[i] \o <<0>>)]
          \o (LET z == Mangle(Magic \o EncLen("uint32", 2) \o tagged \o tagged \o <<0>>) IN IF Unpack(P, z, 0).e # "uncounted" THEN <<un(z)>> ELSE <<>>)

\* streams of tagged messages
Noise(z) == [i \in 1..Draw(1..6) |-> Draw(0..255)]
BadTag(P) == IF Len(P.msg) >= 255 THEN 0 ELSE Draw({Len(P.msg) + 1, 255} \cup ((Len(P.msg) + 1)..255))
\* a message that fails to read without shifting what follows it
WrongFor(P, t) == LET e == P.enc[t] IN (Interesting(e) \cup {Step(e, n, 1) : n \in P.nums[t]}) \ P.nums[t]   \* empty when every byte is declared
Broken(P, it, last) ==
  LET b == EncTagged(P, it.m, it.v, TRUE) ss == SelectSeq(EnumSites(P, it.m, it.v), LAMBDA s : WrongFor(P, s.t) # {}) IN
  IF ss = <<>> THEN (IF last /\ Len(b) > 1 THEN SubSeq(b, 1, Len(b) - 1) ELSE <<BadTag(P)>>)
  ELSE LET s == ss[Draw(1..Len(ss))] IN Patch(b, s.p + 1, EncNum(P.enc[s.t], Draw(WrongFor(P, s.t))))
StreamCases(c) ==
  LET P == PS[c.s] it == c.items n == Len(it) b == Bytes(P, it)
      one(x, max, pl) == [k |-> "p", s |-> c.s, b |-> x, max |-> max] @@ pl
      i == IF n = 0 THEN 0 ELSE Draw(1..n)
      front == IF n = 0 THEN <<>> ELSE Bytes(P, SubSeq(it, 1, i - 1))
      back  == IF n = 0 THEN <<>> ELSE Bytes(P, SubSeq(it, i + 1, n)) IN
  << one(b, -1, TLCEval(Place(1))), one(b, 0, NoPlace), one(b, n, TLCEval(Place(2))), one(b, Draw(0..n + 2), TLCEval(Place(3))),
     one(b, n + 1, NoPlace), one(b, 1, NoPlace), one(b, Draw({-1, -2, -100}), NoPlace),
     one(b \o <<0>> \o TLCEval(Noise(1)), -1, TLCEval(Place(4))), one(b \o <<0>> \o b, n + 1, NoPlace), one(<<0>> \o b, Draw({-1, 0, 1, 2}), NoPlace),
     one(b \o <<TLCEval(BadTag(P))>> \o TLCEval(Noise(2)), -1, NoPlace), one(b \o <<TLCEval(BadTag(P))>>, n, NoPlace), one(b \o <<TLCEval(BadTag(P))>>, n + 1, NoPlace) >>
  \o (IF n = 0 THEN <<one(<<>>, 1, NoPlace)>>
      ELSE << one(front \o <<TLCEval(BadTag(P))>> \o back, -1, NoPlace), one(front \o <<0>> \o back, -1, NoPlace),
              one(front \o TLCEval(Broken(P, it[i], FALSE)) \o back, -1, NoPlace), one(Bytes(P, SubSeq(it, 1, n - 1)) \o TLCEval(Broken(P, it[n], TRUE)), Draw({-1, n - 1, n}), NoPlace) >>
           \o (LET cuts == SetToSeq(IF Len(b) <= 12 THEN 0..Len(b) - 1 ELSE RandomSubset(IF LEVEL > 1 THEN 12 ELSE 4, 0..Len(b) - 1)) IN
               [j \in 1..Len(cuts) |-> one(SubSeq(b, 1, cuts[j]), Draw({-1, -1, n}), NoPlace)]))

\* packed containers
PackCase(c) == LET P == PS[c.s] IN [k |-> "k", s |-> c.s, items |-> [i \in 1..Len(c.items) |-> [m |-> c.items[i].m, v |-> c.items[i].v]], sz |-> PackedSize(P, c.items), sl |-> Draw({0, 0, 5})] @@ TLCEval(Place(0))
UnpackCases(c) ==
  LET P == PS[c.s] it == c.items n == Len(it) b == Pack(P, it) body == Bytes(P, it)
      one(x, pl) == [k |-> "u", s |-> c.s, b |-> x] @@ pl
      hdr(cnt) == Magic \o cnt
      i == IF n = 0 THEN 0 ELSE Draw(1..n)
      front == IF n = 0 THEN <<>> ELSE Bytes(P, SubSeq(it, 1, i - 1))
      back  == IF n = 0 THEN <<>> ELSE Bytes(P, SubSeq(it, i + 1, n))
      j == Draw(1..4) IN
  << one(b, TLCEval(Place(1))), one(b \o TLCEval(Noise(1)), TLCEval(Place(2))),
     one(Patch(b, j - 1, <<(Magic[j] + Draw(1..255)) % 256>>), NoPlace), one(<<66, 67, 83, 73>> \o SubSeq(b, 5, Len(b)), NoPlace),
     one(hdr(EncLen("uint32", n + Draw({1, 2, 256, 65536}))) \o body \o <<0>>, NoPlace),
     one(hdr(EncLen("uint32", n + 1)) \o body, NoPlace),
     one(hdr(<<n % 256, 0, 0, Draw({1, 64, 127, 128, 255})>>) \o body \o <<0>>, NoPlace),
     one(hdr(<<255, 255, 255, 255>>) \o body \o <<0>>, NoPlace),
     one(hdr(EncLen("uint32", 0)), NoPlace), one(hdr(EncLen("uint32", 0)) \o <<0>>, TLCEval(Place(3))),
     one(hdr(EncLen("uint32", 1)) \o <<0>>, NoPlace), one(hdr(EncLen("uint32", 1)), NoPlace), one(SubSeq(b, 1, Draw(0..7)), NoPlace) >>
  \o (IF n = 0 THEN <<>>
      ELSE << one(hdr(EncLen("uint32", n)) \o front \o <<TLCEval(BadTag(P))>> \o back \o <<0>>, NoPlace),
              one(hdr(EncLen("uint32", n)) \o front \o <<0>> \o back \o <<0>>, NoPlace),
              one(hdr(EncLen("uint32", n)) \o front \o TLCEval(Broken(P, it[i], FALSE)) \o back \o <<0>>, NoPlace) >>
           \o (LET cuts == SetToSeq(IF Len(body) <= 12 THEN 1..Len(body) ELSE RandomSubset(IF LEVEL > 1 THEN 16 ELSE 5, 1..Len(body))) IN
               [x \in 1..Len(cuts) |-> one(SubSeq(b, 1, Len(b) - 1 - cuts[x]), NoPlace)]))

\* writing into buffers that may be too small
RoomCases(c) ==
  LET P == PS[c.s] n == Size(P, c.m, c.v)
      one(tag, sl, pl) == [k |-> "w", s |-> c.s, m |-> c.m, v |-> c.v, tag |-> tag, sl |-> sl, sz |-> n + tag, gen |-> Draw({0, 1})] @@ pl
      shorts(tag) == SetToSeq(IF n + tag <= (IF LEVEL > 1 THEN 64 ELSE 16) THEN 1..n + tag ELSE RandomSubset(IF LEVEL > 1 THEN 40 ELSE 9, 1..n + tag) \cup {1, 2, n + tag - 1, n + tag})
      s0 == TLCEval(shorts(0)) s1 == TLCEval(shorts(1)) IN
  IF n > 5000 THEN <<>>
  ELSE <<one(0, 0, TLCEval(Place(1))), one(1, 0, TLCEval(Place(2)))>>
       \o [i \in 1..Len(s0) |-> one(0, -s0[i], TLCEval(Place(i)))] \o [i \in 1..Len(s1) |-> one(1, -s1[i], TLCEval(Place(i)))]
RoomPackCases(c) ==
  LET P == PS[c.s] n == PackedSize(P, c.items)
      its == [i \in 1..Len(c.items) |-> [m |-> c.items[i].m, v |-> c.items[i].v]]
      one(sl, pl) == [k |-> "k", s |-> c.s, items |-> its, sz |-> n, sl |-> sl] @@ pl
      sh == TLCEval(SetToSeq(IF n <= (IF LEVEL > 1 THEN 60 ELSE 20) THEN 1..n ELSE RandomSubset(IF LEVEL > 1 THEN 40 ELSE 10, 1..n) \cup {1, 2, n - 1, n - 4, n - 8, n})) IN
  IF n > 5000 THEN <<>> ELSE <<one(0, TLCEval(Place(1)))>> \o [i \in 1..Len(sh) |-> one(-sh[i], TLCEval(Place(i)))]

SeqCase(c) ==
  LET P == PS[c.s] sz == Sum([i \in 1..Len(c.items) |-> ItemSize(P, c.items[i])]) IN
  <<[k |-> "q", s |-> c.s, items |-> c.items, sz |-> sz, sl |-> Draw({0, 0, 3})] @@ TLCEval(Place(0))>>

\* ---- histories of calls within the ownership rules (Lifecycle)
Faulty == KIND = "hf"
Fail0(z) == IF Faulty /\ Chance(2) THEN Draw({1, 1, 2, 2, 3, 4, 5, 7, 10}) ELSE 0
HistBytes(P, m) ==
  LET b == Enc(P, m, TLCEval(RMsg(P, m, Draw({1, 2, 2})))) w == TLCEval(Draw(1..5)) IN
  CASE w = 1 /\ b # <<>> -> SubSeq(b, 1, Draw(0..Len(b) - 1))
    [] w = 2 -> Tail(Broken(P, [m |-> m, v |-> Dec(P, m, b, 0).v], TRUE) \o <<0>>)
    [] OTHER -> b
HistStream(P) ==
  LET its == TLCEval(Items(P, Draw(0..4), 2, TRUE)) b == Bytes(P, its) w == TLCEval(Draw(1..6)) IN
  CASE w = 1 /\ b # <<>> -> SubSeq(b, 1, Draw(0..Len(b) - 1))
    [] w = 2 -> b \o Broken(P, [m |-> 1, v |-> TLCEval(RMsg(P, 1, 2))], TRUE)
    [] w = 3 -> b \o <<0, 1, 2>>
    [] OTHER -> b
HistPack(P) ==
  LET its == TLCEval(Items(P, Draw(0..4), 2, TRUE)) b == Pack(P, its) w == TLCEval(Draw(1..6)) IN
  CASE w = 1 -> SubSeq(b, 1, Draw(0..Len(b) - 1))
    [] w = 2 -> Magic \o EncLen("uint32", Len(its) + 1) \o Bytes(P, its) \o Broken(P, [m |-> 1, v |-> TLCEval(RMsg(P, 1, 2))], TRUE)
    [] w = 3 -> Magic \o EncLen("uint32", Len(its) + Draw(1..2)) \o Bytes(P, its) \o <<0>>
    [] OTHER -> b
\* arguments for call o on i
Call(P, st, o, i) ==
  CASE o = "c" -> [o |-> o, i |-> i, m |-> Draw(1..Len(P.msg)), f |-> Fail0(i)]
    [] o = "s" -> [o |-> o, i |-> i, m |-> Draw(1..Len(P.msg)), f |-> 0]
    [] o = "b" -> LET m == TLCEval(Draw(1..Len(P.msg))) IN [o |-> o, i |-> i, m |-> m, v |-> RMsg(P, m, 2), f |-> 0]
    [] o = "r" -> [o |-> o, i |-> i, b |-> HistBytes(P, st.obj[i].m), off |-> Draw({0, 0, 3}), f |-> Fail0(i)]
    [] o = "w" -> [o |-> o, i |-> i, tag |-> Draw(0..1), f |-> 0]
    [] o = "P" -> [o |-> o, i |-> i, b |-> HistStream(P), max |-> Draw({-1, -1, 0, 1, 2, 9}), f |-> Fail0(i)]
    [] o = "U" -> [o |-> o, i |-> i, b |-> HistPack(P), f |-> Fail0(i)]
    [] o = "d" -> [o |-> o, i |-> i, gen |-> Draw(0..1), f |-> 0]
    [] OTHER -> [o |-> o, i |-> i, f |-> 0]
Usable(st) == SelectSeq([j \in 1..3 |-> j], LAMBDA j : st.obj[j].st \in {"fresh", "full"})
HistChoices(st) ==
  ({<<o, i>> \in {"c", "s", "b", "r", "w", "g", "k", "d", "x"} \X (1..3) : LC!Allowed(st, o, i)} \cup {<<o, i>> \in {"P", "U", "D", "I", "L"} \X (1..2) : LC!Allowed(st, o, i)})
\* reads are chosen more often: they are what the histories are about
PickCall(st) == LET cs == HistChoices(st) rs == {c \in cs : c[1] = "r"} IN IF rs # {} /\ Chance(2) THEN Draw(rs) ELSE Draw(cs)
RECURSIVE Hist(_, _, _)
Hist(P, st, n) ==
  IF n = 0 THEN <<>>
  ELSE LET ch == TLCEval(PickCall(st)) us == Usable(st)
           c == TLCEval(IF us # <<>> /\ Chance(10) THEN [o |-> "K", i |-> us, f |-> 0] ELSE Call(P, st, ch[1], ch[2])) IN
       <<c>> \o Hist(P, TLCEval(LC!After(P, st, c)), n - 1)
RECURSIVE HistEnd(_, _, _)
HistEnd(P, st, h) == IF h = <<>> THEN st ELSE HistEnd(P, LC!After(P, st, Head(h)), Tail(h))
\* what releases everything
Drain(st) ==
  Cat([i \in 1..3 |-> LET x == st.obj[i] j == TLCEval(Chance(2)) IN
       IF x.st = "none" THEN <<>>
       ELSE IF x.st = "maybe" THEN <<[o |-> "d", i |-> i, gen |-> 0, f |-> 0]>>
       ELSE IF x.st = "spent" THEN <<[o |-> "x", i |-> i, f |-> 0]>>
       ELSE IF x.heap /\ j THEN <<[o |-> "d", i |-> i, gen |-> Draw(0..1), f |-> 0]>>
       ELSE <<[o |-> "k", i |-> i, f |-> 0], [o |-> "x", i |-> i, f |-> 0]>>])
  \o Cat([i \in 1..2 |-> IF st.lst[i].st = "none" THEN <<>> ELSE <<[o |-> Draw({"D", "I"}), i |-> i, f |-> 0]>>])
HistCase(c) ==
  LET P == PS[c.s] IN
  IF Len(P.msg) = 0 THEN <<>>
  ELSE LET h == TLCEval(Hist(P, LC!Start, IF LEVEL > 1 THEN Draw(8..40) ELSE Draw(6..20))) IN
       <<[k |-> "h", s |-> c.s, steps |-> h \o TLCEval(Drain(HistEnd(P, LC!Start, h)))]>>

\* fresh messages, and the message types
FreshCases(c) == [i \in 1..3 |-> [k |-> "d", s |-> c.s, m |-> c.m, style |-> i - 1]]
\* every message of a protocol once, in order
TagCases(c) ==
  LET P == PS[c.s] b == Bytes(P, c.items) IN
  << [k |-> "t", s |-> c.s], [k |-> "p", s |-> c.s, b |-> b, max |-> -1] @@ NoPlace, [k |-> "u", s |-> c.s, b |-> Pack(P, c.items)] @@ NoPlace,
     [k |-> "k", s |-> c.s, items |-> [i \in 1..Len(c.items) |-> [m |-> c.items[i].m, v |-> c.items[i].v]], sz |-> PackedSize(P, c.items), sl |-> 0] @@ NoPlace >>
  \o [i \in 1..Len(c.items) |-> [k |-> "w", s |-> c.s, m |-> c.items[i].m, v |-> c.items[i].v, tag |-> 1, sl |-> 0, sz |-> 1 + Size(P, c.items[i].m, c.items[i].v), gen |-> i % 2] @@ NoPlace]
  \o [i \in 1..Len(c.items) |-> [k |-> "r", s |-> c.s, m |-> c.items[i].m, b |-> Enc(P, c.items[i].m, c.items[i].v), style |-> 0] @@ NoPlace]

Derive(c) ==
  CASE KIND = "rt"    -> RtCases(c)
    [] KIND = "big"   -> BigCases(c)
    [] KIND = "bigm"  -> BigManyCases(c)
    [] KIND = "any"   -> AnyCases(c)
    [] KIND = "pos"   -> PosCases(c)
    [] KIND = "cut"   -> CutCases(c)
    [] KIND = "enum"  -> EnumCases(c)
    [] KIND = "p"     -> StreamCases(c)
    [] KIND = "k"     -> <<PackCase(c)>>
    [] KIND = "u"     -> UnpackCases(c)
    [] KIND = "room"  -> RoomCases(c)
    [] KIND = "roomk" -> RoomPackCases(c)
    [] KIND = "q"     -> SeqCase(c)
    [] KIND = "d"     -> FreshCases(c)
    [] KIND = "tags"  -> TagCases(c)
    [] KIND \in {"h", "hf"} -> HistCase(c)
Many == KIND \in {"h", "hf", "p", "k", "u", "roomk", "q", "tags", "bigm"}

\* ---- the machine
Init == k = 0 /\ ph = "draw" /\ cur = <<>> /\ out = <<>>
DoDraw == ph = "draw" /\ k < N /\ k' = k + 1 /\ ph' = "derive" /\ out' = <<>>
          /\ cur' = TLCEval(IF Many THEN DrawMany(k + 1) ELSE IF KIND = "big" THEN DrawBig(k + 1) ELSE DrawOne(k + 1))
DoDerive == ph = "derive" /\ ph' = "draw" /\ UNCHANGED <<k, cur>> /\ out' = TLCEval(Derive(cur))
Next == DoDraw \/ DoDerive
Spec == Init /\ [][Next]_vars

\* ---- properties of the model on what was drawn
SoundOne(P, m, v) ==
  LET b == Enc(P, m, v) r == Dec(P, m, b, 0) IN
  /\ r.ok /\ r.v = v /\ r.p = Len(b)                        \* round trip
  /\ Size(P, m, v) = Len(b)                                 \* size
  /\ LET sh == Dec(P, m, <<7, 7>> \o b \o <<9>>, 2) IN sh.ok /\ sh.v = v /\ sh.p = Len(b) + 2
  /\ \A st \in ToSet(EnumSites(P, m, v)) : DecNum(P.enc[st.t], b, st.p) \in P.nums[st.t]
  /\ Len(b) <= 40 => \A c \in 0..Len(b) - 1 : ~Dec(P, m, SubSeq(b, 1, c), 0).ok
SoundMany(P, its) ==
  LET b == Pack(P, its) u == Unpack(P, b, 0) s == Process(P, Bytes(P, its), 0, -1) plain == [i \in 1..Len(its) |-> [m |-> its[i].m, v |-> its[i].v]] IN
  /\ Len(b) = PackedSize(P, its) /\ u.st = "ok" /\ u.out = plain
  /\ s.st = "ok" /\ s.out = plain /\ s.pos = Len(Bytes(P, its))
Sound == ph = "derive" => IF Many THEN SoundMany(PS[cur.s], cur.items) ELSE SoundOne(PS[cur.s], cur.m, cur.v)

Emit == \A i \in 1..Len(out) : PrintT("@@" \o ToJson(out[i]))
=============================================================================
